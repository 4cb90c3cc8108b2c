------------------------------ MODULE MC_Store ------------------------------
(***************************************************************************)
(* The headers file and process death.  The file is [exists, hdr, count,   *)
(* slots]: hdr says whether the reserved area is complete; slots maps the  *)
(* allocated slots to a header or Z (zeros).  Every primitive change of    *)
(* the file is an action of its own; the process may die between any two.  *)
(* `before` and `after` are the contents promised before and after the     *)
(* operation in progress.                                                  *)
(*   CountFirst = TRUE is the order the code used before it was repaired   *)
(*   (count stored before the header); EmptyFatal = TRUE its treatment of  *)
(*   an empty file.  With either TRUE, TLC finds the crash that leaves an  *)
(*   unusable file; the checks run with both FALSE.                        *)
(* The system may also refuse to grow the file (GrowFails): the operation  *)
(* is then as if not begun.  CloseFirst = TRUE is what the code did before *)
(* it was repaired: it had given up the old mapping by then, and the       *)
(* collection could not be used any more (NotLost).                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS CP, MaxStored, GrowBy, CountFirst, EmptyFatal, CloseFirst, Stale
VARIABLES file, proc, before, after

Z == 0                      \* an empty slot
Headers == 1 .. MaxStored + 1   \* header 1 is the checkpoint, any other is a child
NoFile == [exists |-> FALSE, hdr |-> FALSE, count |-> 0, slots |-> <<>>]
EmptyFile == [NoFile EXCEPT !.exists = TRUE]

\* what a file shows when opened: <<"bad">>, <<"fatal">> or <<"ok", headers from the checkpoint on, settable part>>
View(f) ==
  IF ~f.exists THEN <<"bad">>
  ELSE IF ~f.hdr THEN (IF EmptyFatal THEN <<"fatal">> ELSE <<"bad">>)
  ELSE IF Len(f.slots) < CP + 1 \/ f.slots[CP + 1] # 1 THEN <<"bad">>
  ELSE LET n == f.count
       IN IF \E i \in CP + 1 .. n : i > Len(f.slots) \/ f.slots[i] = Z THEN <<"fatal">>
          ELSE <<"ok", SubSeq(f.slots, CP + 1, n), SubSeq(f.slots, 1, CP)>>
FreshView == <<"ok", <<1>>, [i \in 1..CP |-> Z]>>
\* allowed initial files: none, an unrelated or truncated one, or one just created
Init == /\ file \in {NoFile, EmptyFile} \cup
                    (IF Stale THEN {[exists |-> TRUE, hdr |-> TRUE, count |-> 2, slots |-> [i \in 1 .. CP + 2 |-> 2]]} ELSE {})
        /\ proc = <<"down">>
        /\ before = FreshView /\ after = FreshView

Opened == proc[1] = "idle"
Down == proc = <<"down">>
(* Opening: use the file, or re-create it in three steps *)
Open == /\ Down
        /\ \/ View(file)[1] = "ok" /\ proc' = <<"idle">> /\ before' = View(file) /\ after' = View(file) /\ UNCHANGED file
           \/ View(file)[1] = "bad" /\ file' = EmptyFile /\ proc' = <<"create", 1>> /\ before' = FreshView /\ after' = FreshView
CreateReserved == /\ proc = <<"create", 1>> /\ file' = [file EXCEPT !.hdr = TRUE, !.count = CP + 1]
                  /\ proc' = <<"create", 2>> /\ UNCHANGED <<before, after>>
CreateHeader == /\ proc = <<"create", 2>> /\ file' = [file EXCEPT !.slots = [i \in 1 .. CP + 1 |-> IF i = CP + 1 THEN 1 ELSE Z]]
                /\ proc' = <<"idle">> /\ UNCHANGED <<before, after>>

Stored == View(file)[2]
StartConnect == /\ Opened /\ Len(Stored) < MaxStored
                /\ \E h \in Headers \ {1} :
                     /\ proc' = <<"connect", 1, h>>
                     /\ after' = <<"ok", Append(Stored, h), View(file)[3]>>
                /\ before' = View(file) /\ UNCHANGED file
\* grow the file when the slot is beyond its end, then the two writes in either order
Grow == /\ proc[1] = "connect" /\ proc[2] = 1
        /\ file' = IF file.count + 1 > Len(file.slots)
                   THEN [file EXCEPT !.slots = @ \o [i \in 1 .. file.count + GrowBy - Len(@) |-> Z]] ELSE file
        /\ proc' = <<"connect", 2, proc[3]>> /\ UNCHANGED <<before, after>>
SlotWrite(pc, n) == /\ file' = [file EXCEPT !.slots = [@ EXCEPT ![n] = proc[3]]]
CountWrite == file' = [file EXCEPT !.count = @ + 1]
GrowFails == /\ proc[1] = "connect" /\ proc[2] = 1 /\ file.count + 1 > Len(file.slots)
             /\ \/ UNCHANGED file      \* no room, or cannot be opened
                \/ file' = [file EXCEPT !.slots = @ \o [i \in 1 .. file.count + GrowBy - Len(@) |-> Z]]   \* cannot be mapped
             /\ proc' = IF CloseFirst THEN <<"lost">> ELSE <<"idle">>
             /\ after' = before /\ UNCHANGED before
Write1 == /\ proc[1] = "connect" /\ proc[2] = 2
          /\ IF CountFirst THEN CountWrite ELSE SlotWrite(2, file.count + 1)
          /\ proc' = <<"connect", 3, proc[3]>> /\ UNCHANGED <<before, after>>
Write2 == /\ proc[1] = "connect" /\ proc[2] = 3
          /\ IF CountFirst THEN SlotWrite(3, file.count) ELSE CountWrite
          /\ proc' = <<"idle">> /\ UNCHANGED <<before, after>>
Set == /\ Opened
       /\ \E i \in 1 .. CP, h \in Headers \ {1} :
            /\ file' = [file EXCEPT !.slots = [@ EXCEPT ![i] = h]]
            /\ before' = View(file) /\ after' = View(file')
       /\ UNCHANGED proc
Crash == ~Down /\ proc' = <<"down">> /\ UNCHANGED <<file, before, after>>
Next == Open \/ CreateReserved \/ CreateHeader \/ StartConnect \/ Grow \/ GrowFails \/ Write1 \/ Write2 \/ Set \/ Crash

\* Whenever the process is down, opening (with re-creation when bad) shows before or after
AfterOpen == IF View(file)[1] = "bad" THEN FreshView ELSE View(file)
CrashAtomic == Down => AfterOpen \in {before, after}
NeverFatal == View(file)[1] # "fatal"
\* in the idle state the file shows exactly what was promised
IdleShowsAfter == Opened => View(file) = after
NotLost == proc # <<"lost">>
=============================================================================
