-------------------------------- MODULE Network --------------------------------
(* The network of nodes as seen on the wire and by the users of each node:    *)
(* membership (P22), reliable messages (P23), fragments (P24), addressing     *)
(* (P25) and what arbitrary datagrams may do (P26).  Every datagram that a    *)
(* node reads is parsed here, and decides what the node has to do about it.   *)
(* Times are in units of 0.1 ms.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
UP == 1  DOWN == 2  PROC == 3  IDLE == 4  RX == 5  TX == 6  JOIN == 7  LEAVE == 8  DELIVER == 9  SEND == 10  SENT == 11  THROW == 12  CALM == 13  FINAL == 14  BLOCK == 15  SKIP == 16  FIN == 99
ANNOUNCE == 1  GOODBYE == 2  DATA == 3  AGAIN == 4  ACK == 5  NACK == 6
TIMEOUT == 20000  PERIOD == 5000  SLACK == 20  MEMORY == 95000
TOOLARGE == <<-1>>   \* stands for a content with more fragments than can be counted
At(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d
Put(f, x, v) == (x :> v) @@ f
Drop(f, xs) == [x \in DOMAIN f \ xs |-> f[x]]
U16(q, i) == q[i] + 256 * q[i + 1]
Bit(x, i) == (x \div (2 ^ i)) % 2 = 1
Bits(q, k, cnt) == {i \in 0..(cnt - 1) : Bit(q[k + i \div 8], i % 8)}

\* ---- what is in a datagram: h its first bytes, d what follows (in units of the content for data), l its length
Genuine(h) == Len(h) >= 5 /\ SubSeq(h, 1, 4) = <<226, 152, 162, 2>>
IsData(h) == h[5] \in {DATA, AGAIN}
DataOk(h, l) == l >= 20 /\ U16(h, 10) >= 1 /\ U16(h, 8) < U16(h, 10)
DataOf(h, d) == [id |-> U16(h, 6), no |-> U16(h, 8), cnt |-> U16(h, 10), rel |-> h[12] # 0, hash |-> SubSeq(h, 13, 20), tok |-> d]
AckOk(d) == Len(d) >= 7 /\ U16(d, 5) >= 1 /\ Len(d) = 7 + U16(d, 5) \div 8
NackOk(d) == Len(d) >= 5 /\ U16(d, 3) >= 1 /\ Len(d) = 5 + U16(d, 3) \div 8
Shaped(h, d, l) == CASE h[5] = ANNOUNCE -> l >= 6 /\ d[Len(d)] = 0
                     [] h[5] = GOODBYE -> l = 5
                     [] IsData(h) -> DataOk(h, l)
                     [] h[5] = ACK -> AckOk(d)
                     [] h[5] = NACK -> NackOk(d)
                     [] OTHER -> FALSE

RECURSIVE Match(_, _, _, _)   \* d is made of one possible content for each fragment
Match(alts, cnt, i, d) == IF i = cnt THEN d = <<>>
                          ELSE i \in DOMAIN alts /\ \E c \in alts[i] : Len(c) <= Len(d) /\ SubSeq(d, 1, Len(c)) = c /\ Match(alts, cnt, i + 1, SubSeq(d, Len(c) + 1, Len(d)))
RECURSIVE Concat(_, _, _)
Concat(f, i, cnt) == IF i = cnt THEN <<>> ELSE f[i] \o Concat(f, i + 1, cnt)

NoCur == [n |-> 0]
NoSend == [n |-> 0]
Nobody == [up |-> FALSE, a |-> 0, name |-> <<>>, peers |-> <<>>, ann |-> -100000, fails |-> FALSE]
InitState(N) == [nd |-> [n \in 1..N |-> Nobody],
                 msg |-> <<>>,     \* <<sender, id>> -> what is sent under that id
                 got |-> <<>>,     \* <<node, sender>> -> id -> what has arrived of it
                 done |-> <<>>,    \* <<node, sender>> -> id -> when a reliable message of that id was last seen after its delivery
                 want |-> {},      \* <<node, sender, id>>: reliable messages that have to arrive
                 act |-> 0, ph |-> 0, must |-> {}, may |-> {}, err |-> FALSE, anned |-> FALSE,
                 cur |-> NoCur, due |-> {}, opt |-> {}, snd |-> NoSend, bye |-> 0, left |-> {}, addrs |-> {}]
\* obligations <<kind, address, id, no>>
DJOIN == 1  DLEAVE == 2  DDELIVER == 3  DACK == 4  DREPLY == 5  DNACK == 6
DueFails(s) == {CASE x[1] = DJOIN -> "P22:newcomer not noticed" [] x[1] = DLEAVE -> "P22:goodbye not noticed"
                  [] x[1] = DDELIVER -> (IF s.cur.p.rel THEN "P23:complete message not delivered" ELSE "P24:complete message not delivered")
                  [] x[1] = DACK -> "P23:not acknowledged" [] x[1] = DREPLY -> "P22:newcomer not answered" [] OTHER -> "P23:request for fragments not served" : x \in s.due}
Peers(s, n) == s.nd[n].peers
Own(s, n) == s.nd[n].a
Keep(k) == 95000 \div (1 + 10 * k) - 20   \* incomplete unreliable messages are surely kept for that long

NoGot == [cnt |-> 0, hash |-> <<>>, rel |-> FALSE, frags |-> <<>>, alts |-> <<>>, last |-> 0, sure |-> TRUE, odd |-> FALSE]
GotOf(s, n, a, id) == At(At(s.got, <<n, a>>, <<>>), id, NoGot)
PutGot(s, n, a, id, g) == [s EXCEPT !.got = Put(@, <<n, a>>, Put(At(@, <<n, a>>, <<>>), id, g))]
DropGot(s, n, a, id) == [s EXCEPT !.got = Put(@, <<n, a>>, Drop(At(@, <<n, a>>, <<>>), {id}))]
PutDone(s, n, a, id, t) == [s EXCEPT !.done = Put(@, <<n, a>>, Put(At(@, <<n, a>>, <<>>), id, t))]
IsDone(s, n, a, id) == id \in DOMAIN At(s.done, <<n, a>>, <<>>)

\* ---- a datagram is read: <<RX, t, n, socket, a, l, h, d>>
Heard(s, n, a, t, sure) == [s EXCEPT !.nd[n].peers[a].hi = t, !.nd[n].peers[a].lo = IF sure THEN t ELSE @]
RxAnnounce(s, t, n, a, name) ==
  IF a \in DOMAIN Peers(s, n) THEN s
  ELSE IF name = <<>> THEN s
  ELSE IF a = Own(s, n) THEN [s EXCEPT !.cur = [n |-> n, a |-> a, name |-> name], !.opt = {DJOIN}]
  ELSE [s EXCEPT !.cur = [n |-> n, a |-> a, name |-> name], !.due = {<<DJOIN, a, 0, 0>>, <<DREPLY, a, 0, 0>>}]
RxData(s, t, n, a, p) ==
  LET g == GotOf(s, n, a, p.id)
      fresh == g.cnt = 0
      same == g.cnt = p.cnt /\ g.hash = p.hash /\ g.rel = p.rel
      done == p.rel /\ IsDone(s, n, a, p.id)
      expired == done /\ t - s.done[<<n, a>>][p.id] > MEMORY
      frags == Put(IF same THEN g.frags ELSE <<>>, p.no, p.tok)
      odd == ~fresh /\ (g.odd \/ ~same \/ (p.no \in DOMAIN g.frags /\ g.frags[p.no] # p.tok))
      alts == Put(g.alts, p.no, At(g.alts, p.no, {}) \cup {p.tok})
      sure == fresh \/ (g.sure /\ (p.rel \/ t - g.last <= Keep(Peers(s, n)[a].k)))
      whole == DOMAIN frags = 0..(p.cnt - 1)
      s2 == PutGot(s, n, a, p.id, [cnt |-> p.cnt, hash |-> p.hash, rel |-> p.rel, frags |-> frags, alts |-> alts, last |-> t, sure |-> sure, odd |-> odd])
      s3 == IF done THEN PutDone(s2, n, a, p.id, t) ELSE s2
  IN [s3 EXCEPT !.cur = [n |-> n, a |-> a, p |-> p, name |-> Peers(s, n)[a].name, done |-> done, over |-> FALSE],
                !.due = (IF whole /\ sure /\ ~odd /\ ~done THEN {<<DDELIVER, a, p.id, 0>>} ELSE {}) \cup (IF p.rel /\ ~odd THEN {<<DACK, a, p.id, p.no>>} ELSE {}),
                !.opt = IF odd \/ expired \/ (~sure /\ whole) THEN {DDELIVER} ELSE {}]
Pending(s, n, a, id, cnt) == <<Own(s, n), id>> \in DOMAIN s.msg /\ s.msg[<<Own(s, n), id>>].cnt = cnt /\ a \in DOMAIN s.msg[<<Own(s, n), id>>].pend
RxAck(s, n, a, id, cnt, bits) ==
  IF ~Pending(s, n, a, id, cnt) THEN s
  ELSE LET m == s.msg[<<Own(s, n), id>>]
           all == m.pend[a] \cup bits
       IN [s EXCEPT !.nd[n].peers[a].k = @ + 1,
                    !.msg[<<Own(s, n), id>>].pend = IF all = 0..(cnt - 1) THEN Drop(@, {a}) ELSE Put(@, a, all)]
RxNack(s, n, a, id, cnt, bits) ==
  IF ~Pending(s, n, a, id, cnt) THEN s
  ELSE [s EXCEPT !.msg[<<Own(s, n), id>>].pend[a] = @ \ bits,
                 !.due = {<<DNACK, a, id, i>> : i \in bits}]
Rx(s0, e) ==
  LET t == e[2]  n == e[3]  a == e[5]  l == e[6]  h == e[7]  d == e[8]
      s == [s0 EXCEPT !.due = {}, !.opt = {}, !.cur = NoCur, !.ph = 2, !.must = {}, !.may = {}]
  IN IF ~Genuine(h) \/ a = 0 THEN s
     ELSE LET known == a \in DOMAIN Peers(s, n)
              ok == Shaped(h, d, l)
              s2 == IF known THEN Heard(s, n, a, t, ok) ELSE s
          IN IF h[5] = ANNOUNCE
             THEN IF ok THEN RxAnnounce(s2, t, n, a, SubSeq(d, 1, Len(d) - 1))
                  ELSE IF ~known /\ l > 6 THEN [s2 EXCEPT !.cur = [n |-> n, a |-> a, name |-> SubSeq(d, 1, Len(d) - 1)], !.opt = {DJOIN}]
                  ELSE s2
             ELSE IF ~known THEN s2
             ELSE IF h[5] = GOODBYE THEN [s2 EXCEPT !.cur = [n |-> n, a |-> a], !.due = IF ok THEN {<<DLEAVE, a, 0, 0>>} ELSE {}, !.opt = {DLEAVE}]
             ELSE IF ~ok THEN s2
             ELSE IF IsData(h) THEN RxData(s2, t, n, a, DataOf(h, d))
             ELSE IF h[5] = ACK THEN RxAck(s2, n, a, U16(d, 1), U16(d, 5), Bits(d, 7, U16(d, 5)))
             ELSE RxNack(s2, n, a, U16(d, 1), U16(d, 3), Bits(d, 5, U16(d, 3)))
RxFails(s, e) == DueFails(s) \cup (IF s.must # {} THEN {"P22:silent node kept"} ELSE {}) \cup (IF s.act # e[3] \/ s.ph = 0 THEN {"P26:read at a strange time"} ELSE {})

\* ---- a datagram is sent: <<TX, t, n, err, a, l, h, d>>
TxFails(cfg, s, e) ==
  LET n == e[3]  a == e[5]  l == e[6]  h == e[7]  d == e[8]  nd == s.nd[n] IN
  IF ~Genuine(h) \/ ~Shaped(h, d, l) THEN {"P26:sent a malformed packet"}
  ELSE IF h[5] = ANNOUNCE THEN (IF SubSeq(d, 1, Len(d) - 1) # nd.name THEN {"P22:announced a wrong name"} ELSE {})
  ELSE IF h[5] = GOODBYE THEN (IF s.bye # n \/ a # 0 THEN {"P22:goodbye while staying"} ELSE {})
  ELSE IF IsData(h) THEN
       LET p == DataOf(h, d)  x == s.snd
           own == <<nd.a, p.id>>
       IN (IF l + 28 > cfg.mtu THEN {"P24:packet too large"} ELSE {}) \cup
          (IF x.n = n
           THEN (IF h[5] # DATA \/ p.hash # x.hash \/ p.rel # x.rel \/ (x.id # 0 /\ (p.id # x.id - 1 \/ p.cnt # x.cnt)) \/ (p.no \in DOMAIN x.frags /\ x.frags[p.no] # p.tok) THEN {"P24:sent a wrong fragment"} ELSE {})
                \cup (IF <<a, p.no>> \in x.txs THEN {"P25:sent twice"} ELSE {})
                \cup (IF x.id = 0 /\ own \in DOMAIN s.msg /\ s.msg[own].pend # <<>> THEN {"P24:message number in use"} ELSE {})
           ELSE IF h[5] # AGAIN \/ own \notin DOMAIN s.msg THEN {"P24:sent out of nothing"}
           ELSE LET m == s.msg[own] IN
                (IF p.hash # m.hash \/ ~p.rel \/ ~m.rel \/ p.cnt # m.cnt \/ p.tok # m.frags[p.no] THEN {"P24:repeated a wrong fragment"} ELSE {})
                \cup (IF a \notin DOMAIN m.pend THEN IF a \in s.left THEN {} ELSE {"P23:repeated to a node that has it all"} ELSE IF p.no \in m.pend[a] THEN {"P23:repeated an acknowledged fragment"} ELSE {}))
  ELSE IF a \notin DOMAIN nd.peers THEN {"P26:answered a stranger"}
  ELSE IF h[5] = ACK THEN LET g == GotOf(s, n, a, U16(d, 1)) IN
       IF g.cnt = 0 \/ ~g.rel THEN (IF g.odd THEN {} ELSE {"P23:acknowledged nothing"})
       ELSE IF ~g.odd /\ (U16(d, 5) # g.cnt \/ ~(Bits(d, 7, U16(d, 5)) \subseteq DOMAIN g.alts)) THEN {"P23:acknowledged what did not arrive"} ELSE {}
  ELSE (IF ~GotOf(s, n, a, U16(d, 1)).odd THEN {"P23:asked for what it has"} ELSE {})
Tx(s, e) ==
  LET n == e[3]  a == e[5]  h == e[7]  d == e[8] IN
  IF ~Genuine(h) \/ ~Shaped(h, d, e[6]) THEN s
  ELSE IF h[5] = ANNOUNCE THEN [s EXCEPT !.due = @ \ {<<DREPLY, a, 0, 0>>}, !.anned = @ \/ a = 0, !.err = @ \/ e[4] = 1, !.nd[n].ann = IF a = 0 THEN e[2] ELSE @]
  ELSE IF h[5] = GOODBYE THEN [s EXCEPT !.bye = 0]
  ELSE IF IsData(h) THEN
       LET p == DataOf(h, d) IN
       IF s.snd.n = n THEN
            LET x == s.snd
                s2 == IF x.id # 0 \/ <<Own(s, n), p.id>> \notin DOMAIN s.msg THEN s
                      ELSE \* the number is used again
                        [s EXCEPT !.got = [k \in DOMAIN @ |-> IF k[2] = Own(s, n) THEN Drop(@[k], {p.id}) ELSE @[k]],
                                  !.done = [k \in DOMAIN @ |-> IF k[2] = Own(s, n) THEN Drop(@[k], {p.id}) ELSE @[k]]]
            IN [s2 EXCEPT !.snd = [x EXCEPT !.id = p.id + 1, !.cnt = p.cnt, !.frags = Put(@, p.no, p.tok), !.txs = @ \cup {<<a, p.no>>}]]
       ELSE [s EXCEPT !.due = @ \ {<<DNACK, a, p.id, p.no>>}]
  ELSE IF h[5] = ACK THEN [s EXCEPT !.due = {x \in @ : ~(x[1] = DACK /\ x[2] = a /\ x[3] = U16(d, 1) /\ x[4] \in Bits(d, 7, U16(d, 5)))}]
  ELSE s

\* ---- callbacks
JoinFails(s, e) ==
  LET n == e[3]  a == e[4] IN
  (IF a \in DOMAIN Peers(s, n) THEN {"P22:joined twice"} ELSE {})
  \cup (IF ~(<<DJOIN, a, 0, 0>> \in s.due \/ (DJOIN \in s.opt /\ s.cur.n = n /\ s.cur.a = a)) THEN {"P22:joined without a reason"}
        ELSE IF e[5] # s.cur.name THEN {"P22:joined under a wrong name"} ELSE {})
Join(s, e) ==
  LET n == e[3]  a == e[4] IN
  [s EXCEPT !.nd[n].peers = Put(@, a, [name |-> e[5], lo |-> e[2], hi |-> e[2], k |-> 0]), !.due = @ \ {<<DJOIN, a, 0, 0>>}, !.opt = @ \ {DJOIN},
            !.got = Put(@, <<n, a>>, <<>>), !.done = Put(@, <<n, a>>, <<>>)]
LeaveFails(s, e) ==
  LET n == e[3]  a == e[4] IN
  IF a \notin DOMAIN Peers(s, n) THEN {"P22:left without having joined"}
  ELSE (IF ~(<<DLEAVE, a, 0, 0>> \in s.due \/ (DLEAVE \in s.opt /\ s.cur.a = a) \/ (s.act = n /\ a \in s.may)) THEN {"P22:left without a reason"} ELSE {})
       \cup (IF e[5] # Peers(s, n)[a].name THEN {"P22:left under a wrong name"} ELSE {})
Leave(s, e) ==
  LET n == e[3]  a == e[4] IN
  IF a \notin DOMAIN Peers(s, n) THEN s
  ELSE [s EXCEPT !.left = @ \cup {a}, !.nd[n].peers = Drop(@, {a}), !.due = @ \ {<<DLEAVE, a, 0, 0>>}, !.opt = @ \ {DLEAVE}, !.must = @ \ {a}, !.may = @ \ {a},
                 !.want = {w \in @ : ~(w[1] = n /\ w[2] = a) /\ ~(w[2] = Own(s, n) /\ s.nd[w[1]].a = a)},
                 !.msg = [k \in DOMAIN @ |-> IF k[1] = Own(s, n) THEN [@[k] EXCEPT !.pend = Drop(@, {a})] ELSE @[k]]]
DeliverFails(cfg, s, e) ==
  LET n == e[3]  a == e[4]  c == s.cur IN
  IF c.n # n \/ "p" \notin DOMAIN c THEN {"P24:delivered out of nothing"}
  ELSE LET p == c.p  g == GotOf(s, n, a, p.id) IN
       (IF c.a # a \/ e[5] # c.name THEN {"P25:wrong sender"} ELSE {})
       \cup (IF e[6] # p.hash \/ e[7] # (IF p.rel THEN 1 ELSE 0) THEN {"P24:wrong type or reliability"} ELSE {})
       \cup (IF c.over \/ ~(<<DDELIVER, a, p.id, 0>> \in s.due \/ DDELIVER \in s.opt) THEN {IF c.over \/ c.done THEN "P23:delivered twice" ELSE "P24:delivered without all fragments"} ELSE {})
       \cup (IF ~Match(g.alts, p.cnt, 0, e[8]) THEN {"P24:not the content that arrived"} ELSE {})
       \cup (IF ~cfg.pure \/ a \notin s.addrs THEN {}
             ELSE IF <<a, p.id>> \notin DOMAIN s.msg THEN {"P24:delivered what was never sent"}
             ELSE LET m == s.msg[<<a, p.id>>] IN
                  (IF m.d # e[8] \/ m.hash # e[6] \/ m.rel # p.rel THEN {"P24:not the content that was sent"} ELSE {})
                  \cup (IF m.to # <<>> /\ m.to # s.nd[n].name THEN {"P25:delivered to the wrong node"} ELSE {}))
Deliver(s, e) ==
  LET n == e[3]  a == e[4]  c == s.cur IN
  IF c.n # n \/ "p" \notin DOMAIN c THEN s
  ELSE LET p == c.p
           s2 == [s EXCEPT !.cur.over = TRUE, !.due = @ \ {<<DDELIVER, a, p.id, 0>>}, !.want = @ \ {<<n, a, p.id>>}]
       IN IF p.rel THEN PutDone(s2, n, a, p.id, e[2]) ELSE IF GotOf(s, n, a, p.id).odd THEN s2 ELSE DropGot(s2, n, a, p.id)

\* ---- sending
Named(s, n, to) == {a \in DOMAIN Peers(s, n) : to = <<>> \/ Peers(s, n)[a].name = to}
Send(s, e) == [s EXCEPT !.snd = [n |-> e[3], to |-> e[5], hash |-> e[6], rel |-> e[7] # 0, d |-> e[8], id |-> 0, cnt |-> 0, frags |-> <<>>, txs |-> {}]]
SentFails(s, e) ==
  LET n == e[3]  x == s.snd
      dest == IF x.to = <<>> THEN {0} ELSE Named(s, n, x.to)
  IN IF x.d = TOOLARGE THEN {"P24:too large a message was accepted"}
     ELSE IF dest = {} THEN (IF x.txs # {} THEN {"P25:sent to nobody's address"} ELSE {})
     ELSE IF x.id = 0 THEN {"P25:not sent"}
     ELSE (IF DOMAIN x.frags # 0..(x.cnt - 1) THEN {"P24:fragment not sent"}
           ELSE IF Concat(x.frags, 0, x.cnt) # x.d THEN {"P24:fragments are not the message"} ELSE {})
          \cup (IF x.txs # {<<a, i>> : a \in dest, i \in 0..(x.cnt - 1)} THEN {"P25:not sent to exactly the named nodes"} ELSE {})
Sent(s, e) ==
  LET n == e[3]  x == s.snd  a == Own(s, n)
      pend == IF x.rel THEN [b \in Named(s, n, x.to) |-> {}] ELSE <<>>
  IN IF x.id = 0 THEN [s EXCEPT !.snd = NoSend]
     ELSE [s EXCEPT !.snd = NoSend,
                    !.msg = Put(@, <<a, x.id - 1>>, [hash |-> x.hash, rel |-> x.rel, d |-> x.d, to |-> x.to, cnt |-> x.cnt, frags |-> x.frags, pend |-> pend]),
                    !.want = @ \cup {<<k, a, x.id - 1>> : k \in {j \in DOMAIN s.nd : s.nd[j].up /\ s.nd[j].a \in DOMAIN pend}}]

\* ---- nodes
GoDown(s, n) == [s EXCEPT !.nd[n].up = FALSE, !.nd[n].peers = <<>>, !.want = {w \in @ : w[1] # n /\ w[2] # s.nd[n].a},
                          !.msg = [k \in DOMAIN @ |-> IF k[1] = s.nd[n].a THEN [@[k] EXCEPT !.pend = <<>>] ELSE @[k]], !.due = {}, !.opt = {}, !.cur = NoCur]
Up(s, e) == [s EXCEPT !.addrs = @ \cup {e[4]}, !.nd[e[3]] = [Nobody EXCEPT !.up = TRUE, !.a = e[4], !.name = e[6], !.ann = -100000]]
Proc(s, e) ==
  LET n == e[3]  P == Peers(s, n) IN
  [s EXCEPT !.act = n, !.ph = 1, !.left = {}, !.err = FALSE, !.anned = FALSE, !.due = {}, !.opt = {}, !.cur = NoCur,
            !.must = {a \in DOMAIN P : e[2] - P[a].hi > TIMEOUT + SLACK},
            !.may = {a \in DOMAIN P : e[2] - P[a].lo > TIMEOUT - SLACK}]
IdleFails(s, e) ==
  LET n == e[3] IN
  DueFails(s) \cup (IF s.must # {} THEN {"P22:silent node kept"} ELSE {})
  \cup (IF ~s.anned /\ e[2] - s.nd[n].ann > PERIOD + 20 THEN {"P22:not announced"} ELSE {})
Rest(s) == [s EXCEPT !.act = 0, !.ph = 0, !.due = {}, !.opt = {}, !.cur = NoCur, !.must = {}, !.may = {}]
FinalFails(cfg, s, e) ==
  LET live == {n \in DOMAIN s.nd : s.nd[n].up} IN
  (IF \E n \in live : \E m \in live \ {n} : s.nd[m].a \notin DOMAIN Peers(s, n) THEN {"P22:nodes that do not know each other"} ELSE {})
  \cup (IF \E n \in live : \E a \in DOMAIN Peers(s, n) : ~\E m \in live : s.nd[m].a = a THEN {"P22:dead node kept"} ELSE {})
  \cup (IF \E n \in live : e[2] - s.nd[n].ann > PERIOD + 300 THEN {"P22:stopped announcing"} ELSE {})
  \cup (IF cfg.pure /\ s.want # {} THEN {"P23:reliable message lost"} ELSE {})
  \cup (IF \E k \in DOMAIN s.msg : s.msg[k].pend # <<>> THEN {"P23:never finished sending"} ELSE {})

Fails(cfg, s, e) ==
  LET k == e[1] IN
  (IF s.bye # 0 /\ ~(k = TX /\ e[3] = s.bye) THEN {"P22:left without a goodbye"} ELSE {}) \cup
  CASE k = RX -> RxFails(s, e)
    [] k = TX -> TxFails(cfg, s, e)
    [] k = JOIN -> JoinFails(s, e)
    [] k = LEAVE -> LeaveFails(s, e)
    [] k = DELIVER -> DeliverFails(cfg, s, e)
    [] k = SENT -> SentFails(s, e)
    [] k = IDLE -> IdleFails(s, e)
    [] k = THROW -> (IF e[4] = 1 THEN (IF s.snd.n # 0 /\ s.snd.d = TOOLARGE /\ s.snd.txs = {} THEN {} ELSE {"P26:sending failed with an exception"}) ELSE IF s.err THEN {} ELSE {"P26:exception out of the network"})
    [] k = FINAL -> FinalFails(cfg, s, e)
    [] k = BLOCK -> {"P26:blocked reading a socket"}
    [] k = FIN -> (CASE e[2] = 0 -> {} [] e[2] = 2 -> {"CRASH"} [] OTHER -> {"HANG"})
    [] OTHER -> {}
Step(cfg, s, e) ==
  LET k == e[1]
      s1 == IF s.bye # 0 /\ ~(k = TX /\ e[3] = s.bye) THEN [s EXCEPT !.bye = 0] ELSE s
  IN CASE k = UP -> Up(s1, e)
       [] k = DOWN -> [GoDown(s1, e[3]) EXCEPT !.bye = IF e[4] = 1 THEN e[3] ELSE 0]
       [] k = PROC -> Proc(s1, e)
       [] k = IDLE -> Rest(s1)
       [] k = RX -> Rx(s1, e)
       [] k = TX -> Tx(s1, e)
       [] k = JOIN -> Join(s1, e)
       [] k = LEAVE -> Leave(s1, e)
       [] k = DELIVER -> Deliver(s1, e)
       [] k = SEND -> Send(s1, e)
       [] k = SENT -> Sent(s1, e)
       [] k = THROW -> (IF e[4] = 1 THEN [s1 EXCEPT !.snd = NoSend] ELSE [Rest(s1) EXCEPT !.anned = TRUE])
       [] OTHER -> s1
=============================================================================
