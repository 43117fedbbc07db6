------------------------------ MODULE Catalog ------------------------------
(* Generated by tools/mkcatalog.py from tools/catalog.py: the reactions that the driver drivers/sched.cpp can bind *)
EXTENDS Integers, TLC
MAIN == 0  DPOOL == 1  P1 == 2  P2 == 3  PP == 4  PN == 5
Groups == {1, 2, 3, 4}
GroupCap == ( 1 :> 1 @@ 2 :> 1 @@ 3 :> 1 @@ 4 :> 2 )
PoolConc == ( 0 :> 1 @@ 2 :> 1 @@ 3 :> 2 @@ 4 :> 1 @@ 5 :> 1 )
Reactions == {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55}
IdleReactions == {50, 51, 52, 53, 54, 55}
IWatch == ( 50 :> -1 @@ 51 :> 1 @@ 52 :> 2 @@ 53 :> -1 @@ 54 :> 3 @@ 55 :> 1 )
RKind == ( 0 :> 0 @@ 1 :> 1 @@ 2 :> 2 @@ 3 :> 3 @@ 4 :> 4 @@ 5 :> 5 @@ 6 :> 6 @@ 7 :> 6 @@ 8 :> 7 @@ 9 :> 8 @@ 10 :> 8 @@ 11 :> 8 @@ 12 :> 9 @@ 13 :> 10 @@ 14 :> 10 @@ 15 :> 11 @@ 16 :> 12 @@ 17 :> 13 @@ 18 :> 14 @@ 19 :> 15 @@ 20 :> 16 @@ 21 :> 17 @@ 22 :> 18 @@ 23 :> 19 @@ 24 :> 20 @@ 25 :> 21 @@ 26 :> 22 @@ 27 :> 23 @@ 28 :> 24 @@ 29 :> 25 @@ 30 :> 26 @@ 31 :> 27 @@ 32 :> 28 @@ 33 :> 29 @@ 34 :> 29 @@ 35 :> 30 @@ 36 :> 30 @@ 37 :> 31 @@ 38 :> 32 @@ 39 :> 33 @@ 40 :> 11 @@ 41 :> 0 @@ 42 :> 34 @@ 43 :> 35 @@ 44 :> 36 @@ 45 :> 36 @@ 46 :> 35 @@ 47 :> 37 @@ 48 :> 37 @@ 49 :> 38 @@ 50 :> -1 @@ 51 :> -1 @@ 52 :> -1 @@ 53 :> -1 @@ 54 :> -1 @@ 55 :> -1 )
RPool == ( 0 :> 1 @@ 1 :> 1 @@ 2 :> 1 @@ 3 :> 1 @@ 4 :> 1 @@ 5 :> 1 @@ 6 :> 2 @@ 7 :> 3 @@ 8 :> 0 @@ 9 :> 1 @@ 10 :> 1 @@ 11 :> 1 @@ 12 :> 1 @@ 13 :> 1 @@ 14 :> 1 @@ 15 :> 1 @@ 16 :> 2 @@ 17 :> 2 @@ 18 :> 2 @@ 19 :> 2 @@ 20 :> 3 @@ 21 :> 1 @@ 22 :> 2 @@ 23 :> 4 @@ 24 :> 0 @@ 25 :> 2 @@ 26 :> 1 @@ 27 :> 1 @@ 28 :> 1 @@ 29 :> 1 @@ 30 :> 1 @@ 31 :> 1 @@ 32 :> 3 @@ 33 :> 1 @@ 34 :> 1 @@ 35 :> 1 @@ 36 :> 1 @@ 37 :> 1 @@ 38 :> 1 @@ 39 :> 1 @@ 40 :> 3 @@ 41 :> 3 @@ 42 :> 1 @@ 43 :> 1 @@ 44 :> 3 @@ 45 :> 1 @@ 46 :> 1 @@ 47 :> 1 @@ 48 :> 1 @@ 49 :> 2 @@ 50 :> 1 @@ 51 :> 1 @@ 52 :> 1 @@ 53 :> 2 @@ 54 :> 1 @@ 55 :> 1 )
RPrio == ( 0 :> 500 @@ 1 :> 500 @@ 2 :> 750 @@ 3 :> 500 @@ 4 :> 500 @@ 5 :> 500 @@ 6 :> 500 @@ 7 :> 500 @@ 8 :> 500 @@ 9 :> 500 @@ 10 :> 500 @@ 11 :> 500 @@ 12 :> 500 @@ 13 :> 500 @@ 14 :> 500 @@ 15 :> 500 @@ 16 :> 250 @@ 17 :> 750 @@ 18 :> 1000 @@ 19 :> 0 @@ 20 :> 500 @@ 21 :> 750 @@ 22 :> 250 @@ 23 :> 500 @@ 24 :> 500 @@ 25 :> 500 @@ 26 :> 250 @@ 27 :> 750 @@ 28 :> 1000 @@ 29 :> 0 @@ 30 :> 250 @@ 31 :> 500 @@ 32 :> 500 @@ 33 :> 500 @@ 34 :> 500 @@ 35 :> 500 @@ 36 :> 500 @@ 37 :> 250 @@ 38 :> 500 @@ 39 :> 500 @@ 40 :> 500 @@ 41 :> 500 @@ 42 :> 500 @@ 43 :> 500 @@ 44 :> 750 @@ 45 :> 500 @@ 46 :> 500 @@ 47 :> 500 @@ 48 :> 500 @@ 49 :> 500 @@ 50 :> 500 @@ 51 :> 500 @@ 52 :> 500 @@ 53 :> 500 @@ 54 :> 500 @@ 55 :> 500 )
RInl == ( 0 :> 0 @@ 1 :> 0 @@ 2 :> 0 @@ 3 :> 0 @@ 4 :> 0 @@ 5 :> 0 @@ 6 :> 0 @@ 7 :> 0 @@ 8 :> 0 @@ 9 :> 1 @@ 10 :> 2 @@ 11 :> 0 @@ 12 :> 1 @@ 13 :> 0 @@ 14 :> 0 @@ 15 :> 0 @@ 16 :> 0 @@ 17 :> 0 @@ 18 :> 0 @@ 19 :> 0 @@ 20 :> 0 @@ 21 :> 0 @@ 22 :> 0 @@ 23 :> 0 @@ 24 :> 0 @@ 25 :> 0 @@ 26 :> 0 @@ 27 :> 0 @@ 28 :> 0 @@ 29 :> 0 @@ 30 :> 0 @@ 31 :> 1 @@ 32 :> 0 @@ 33 :> 1 @@ 34 :> 1 @@ 35 :> 0 @@ 36 :> 1 @@ 37 :> 0 @@ 38 :> 0 @@ 39 :> 0 @@ 40 :> 0 @@ 41 :> 0 @@ 42 :> 0 @@ 43 :> 1 @@ 44 :> 0 @@ 45 :> 0 @@ 46 :> 0 @@ 47 :> 1 @@ 48 :> 1 @@ 49 :> 0 @@ 50 :> 0 @@ 51 :> 0 @@ 52 :> 0 @@ 53 :> 0 @@ 54 :> 0 @@ 55 :> 0 )
RBuf == ( 0 :> 0 @@ 1 :> 0 @@ 2 :> 0 @@ 3 :> 0 @@ 4 :> 0 @@ 5 :> 0 @@ 6 :> 0 @@ 7 :> 0 @@ 8 :> 0 @@ 9 :> 0 @@ 10 :> 0 @@ 11 :> 0 @@ 12 :> 0 @@ 13 :> 1 @@ 14 :> 2 @@ 15 :> 0 @@ 16 :> 0 @@ 17 :> 0 @@ 18 :> 0 @@ 19 :> 0 @@ 20 :> 0 @@ 21 :> 0 @@ 22 :> 0 @@ 23 :> 0 @@ 24 :> 0 @@ 25 :> 0 @@ 26 :> 0 @@ 27 :> 0 @@ 28 :> 0 @@ 29 :> 0 @@ 30 :> 0 @@ 31 :> 0 @@ 32 :> 2 @@ 33 :> 0 @@ 34 :> 0 @@ 35 :> 0 @@ 36 :> 0 @@ 37 :> 0 @@ 38 :> 0 @@ 39 :> 1 @@ 40 :> 0 @@ 41 :> 0 @@ 42 :> 0 @@ 43 :> 0 @@ 44 :> 0 @@ 45 :> 0 @@ 46 :> 0 @@ 47 :> 0 @@ 48 :> 2 @@ 49 :> 3 @@ 50 :> 0 @@ 51 :> 0 @@ 52 :> 0 @@ 53 :> 0 @@ 54 :> 1 @@ 55 :> 0 )
ROnce == ( 0 :> 0 @@ 1 :> 0 @@ 2 :> 0 @@ 3 :> 0 @@ 4 :> 0 @@ 5 :> 0 @@ 6 :> 0 @@ 7 :> 0 @@ 8 :> 0 @@ 9 :> 0 @@ 10 :> 0 @@ 11 :> 0 @@ 12 :> 0 @@ 13 :> 0 @@ 14 :> 0 @@ 15 :> 1 @@ 16 :> 0 @@ 17 :> 0 @@ 18 :> 0 @@ 19 :> 0 @@ 20 :> 0 @@ 21 :> 0 @@ 22 :> 0 @@ 23 :> 0 @@ 24 :> 0 @@ 25 :> 0 @@ 26 :> 0 @@ 27 :> 0 @@ 28 :> 0 @@ 29 :> 0 @@ 30 :> 0 @@ 31 :> 0 @@ 32 :> 0 @@ 33 :> 1 @@ 34 :> 0 @@ 35 :> 0 @@ 36 :> 0 @@ 37 :> 0 @@ 38 :> 0 @@ 39 :> 0 @@ 40 :> 1 @@ 41 :> 0 @@ 42 :> 0 @@ 43 :> 0 @@ 44 :> 0 @@ 45 :> 0 @@ 46 :> 0 @@ 47 :> 0 @@ 48 :> 0 @@ 49 :> 0 @@ 50 :> 0 @@ 51 :> 0 @@ 52 :> 0 @@ 53 :> 0 @@ 54 :> 0 @@ 55 :> 0 )
RScope == ( 0 :> 0 @@ 1 :> 0 @@ 2 :> 0 @@ 3 :> 0 @@ 4 :> 0 @@ 5 :> 0 @@ 6 :> 0 @@ 7 :> 0 @@ 8 :> 0 @@ 9 :> 0 @@ 10 :> 0 @@ 11 :> 0 @@ 12 :> 0 @@ 13 :> 0 @@ 14 :> 0 @@ 15 :> 0 @@ 16 :> 0 @@ 17 :> 0 @@ 18 :> 0 @@ 19 :> 0 @@ 20 :> 0 @@ 21 :> 0 @@ 22 :> 0 @@ 23 :> 0 @@ 24 :> 0 @@ 25 :> 0 @@ 26 :> 0 @@ 27 :> 0 @@ 28 :> 0 @@ 29 :> 0 @@ 30 :> 0 @@ 31 :> 0 @@ 32 :> 0 @@ 33 :> 0 @@ 34 :> 0 @@ 35 :> 1 @@ 36 :> 2 @@ 37 :> 0 @@ 38 :> 0 @@ 39 :> 0 @@ 40 :> 0 @@ 41 :> 0 @@ 42 :> 0 @@ 43 :> 1 @@ 44 :> 0 @@ 45 :> 0 @@ 46 :> 1 @@ 47 :> 3 @@ 48 :> 0 @@ 49 :> 0 @@ 50 :> 0 @@ 51 :> 0 @@ 52 :> 0 @@ 53 :> 0 @@ 54 :> 0 @@ 55 :> 0 )
RGroups == ( 0 :> {} @@ 1 :> {1} @@ 2 :> {1} @@ 3 :> {2} @@ 4 :> {1, 2} @@ 5 :> {4} @@ 6 :> {} @@ 7 :> {1} @@ 8 :> {} @@ 9 :> {} @@ 10 :> {} @@ 11 :> {} @@ 12 :> {1} @@ 13 :> {} @@ 14 :> {} @@ 15 :> {} @@ 16 :> {} @@ 17 :> {} @@ 18 :> {} @@ 19 :> {} @@ 20 :> {2, 4} @@ 21 :> {1, 2} @@ 22 :> {1} @@ 23 :> {} @@ 24 :> {1} @@ 25 :> {1, 2} @@ 26 :> {} @@ 27 :> {} @@ 28 :> {} @@ 29 :> {} @@ 30 :> {1} @@ 31 :> {1, 2} @@ 32 :> {} @@ 33 :> {} @@ 34 :> {} @@ 35 :> {} @@ 36 :> {} @@ 37 :> {3, 2} @@ 38 :> {1, 4} @@ 39 :> {1} @@ 40 :> {} @@ 41 :> {} @@ 42 :> {1, 2, 3} @@ 43 :> {} @@ 44 :> {3, 1, 4} @@ 45 :> {2, 1} @@ 46 :> {3} @@ 47 :> {} @@ 48 :> {1} @@ 49 :> {} @@ 50 :> {} @@ 51 :> {} @@ 52 :> {} @@ 53 :> {} @@ 54 :> {} @@ 55 :> {1} )
=============================================================================
