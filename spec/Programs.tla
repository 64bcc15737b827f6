------------------------------ MODULE Programs ------------------------------
(* Client programs and the rules of the language which they have to obey.

   Part "thread": a concurrent iterator over elements of type E is shared with, or moved to, other threads.  E, and a wrapped
   sequential iterator I, may or may not be Send and Sync.  The program is illegal when a value crosses threads which must
   not: then it must be rejected by the compiler.

   Part "borrow": a sequence of statements over the collection (src), the concurrent iterator (it), elements (r), chunks (c),
   buffered iterators (b) and their chunks (d), adaptors (v), clones (k), the remainder (s).  Every statement updates an
   ownership state; the program is illegal when it uses a value whose foundation is gone: then it must be rejected.

   Part "owner": attempts to obtain an element without the reservation which makes its owner unique.

   Every illegal program has a legal twin which differs only in the order of the statements, or in the marker types; the
   verdict is demanded only when the twin is accepted (so that the program is rejected for the right reason).        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

RefKinds   == {"slice", "vecref", "arrref", "iterref"}
OwnKinds   == {"vec", "array", "iter"}
Kinds      == RefKinds \cup OwnKinds
Adaptors(k) == IF k \in RefKinds THEN {"none", "cloned", "copied"} ELSE {"none"}
Wrapped    == {"iter", "iterref"}
Markers    == {"both", "send", "sync", "neither"}
IsSend(m)  == m \in {"both", "send"}
IsSync(m)  == m \in {"both", "sync"}

---------------------------------------------------------------------------
(* threads *)

\* may the values which a pull on another thread touches be there?
ElementCrosses(k, m) == IF k \in RefKinds THEN IsSync(m) ELSE IsSend(m)
IterCrosses(k, w)    == k \in Wrapped => IsSend(w)

ThreadIllegal(p) == \/ ~ElementCrosses(p.kind, p.elem)
                    \/ ~IterCrosses(p.kind, p.iter)
                    \/ p.how = "spawn" /\ p.kind \in RefKinds            \* the thread may outlive the local collection

Hows == {"share", "move", "spawn", "chunk", "buffered", "values", "fold", "remainder", "arc"}

ThreadPrograms ==
  {p \in [part : {"thread"}, kind : Kinds, ad : {"none", "cloned", "copied"}, elem : Markers, iter : Markers, how : Hows] :
     /\ p.ad \in Adaptors(p.kind)
     /\ p.kind \notin Wrapped => p.iter = "both"
     /\ p.how = "arc" => p.kind \in OwnKinds
     /\ p.how = "spawn" => p.elem = "both" /\ p.iter = "both"}

ThreadTwin(p) == [p EXCEPT !.elem = "both", !.iter = "both", !.how = IF @ = "spawn" THEN "move" ELSE @]

---------------------------------------------------------------------------
(* borrows: the ownership state is the set of the foundations which are gone *)

Vars == {"it", "r", "c", "b", "d", "v", "w", "k", "s"}

\* what has to exist (and be unchanged) as long as the value is used
Need(kind, ad, x) ==
  LET src == IF kind \in RefKinds THEN {"src"} ELSE {}
  IN CASE x = "it" -> src \cup {"it"}
       [] x = "r"  -> IF ad = "none" THEN src ELSE {}
       [] x = "c"  -> src \cup (IF kind \in {"vec", "array"} THEN {"it"} ELSE {})
       [] x = "b"  -> src \cup {"it"}
       [] x = "d"  -> src \cup {"pull"} \cup (IF kind \in {"vec", "array"} THEN {"it"} ELSE {})
                          \cup (IF kind \in Wrapped THEN {"b"} ELSE {})
       [] x \in {"v", "w"} -> src \cup {"it"}
       [] x = "k"  -> src
       [] x = "s"  -> src

\* statements which create the value
Chain(x) == CASE x = "it" -> <<"it">>
              [] x = "r" -> <<"it", "r">>
              [] x = "c" -> <<"it", "c">>
              [] x = "b" -> <<"it", "b">>
              [] x = "d" -> <<"it", "b", "d">>
              [] x = "v" -> <<"it", "v">>
              [] x = "w" -> <<"it", "w">>
              [] x = "k" -> <<"it", "k">>
              [] x = "s" -> <<"it", "s">>

\* what a statement destroys, moves or invalidates
Gone(stmt) == CASE stmt \in {"dropsrc", "mutsrc", "movesrc", "scope"} -> {"src"}
                [] stmt \in {"dropit", "seq", "moveit"} -> {"it"}
                [] stmt = "pullagain" -> {"pull"}
                [] stmt = "dropb" -> {"b", "pull"}
                [] OTHER -> {}
Killers == {"dropsrc", "mutsrc", "movesrc", "scope", "dropit", "seq", "moveit", "pullagain", "dropb"}
Extras  == {"nothing", "len", "next", "chunk", "foreach", "skip"}

Possible(kind, ad, x, kill) ==
  /\ kind \in OwnKinds => kill \notin {"dropsrc", "mutsrc", "movesrc", "scope"}
  /\ kill \in {"pullagain", "dropb"} => x = "d"
  /\ kind = "arrref" /\ ad = "copied" => kill \notin {"dropsrc", "movesrc"}       \* a copy of the array is moved
  /\ x = "k" => kind \in {"slice", "vecref", "arrref"} /\ ad = "none"
  /\ x = "s" => kill \notin {"seq", "dropit", "moveit"}
  /\ kill = "scope" => x \in {"it", "r", "c", "s", "k"}

\* dropping the buffer invalidates its chunks only if they live in it
Invalid(kind, ad, x, gone) == LET need == Need(kind, ad, x) IN
   \/ (need \cap gone) \ {"pull"} # {}
   \/ "pull" \in need \cap gone /\ "b" \notin gone

BorrowPrograms ==
  {p \in [part : {"borrow"}, kind : Kinds, ad : {"none", "cloned", "copied"}, x : Vars, extra : Extras, kill : Killers] :
     /\ p.ad \in Adaptors(p.kind)
     /\ Possible(p.kind, p.ad, p.x, p.kill)
     /\ p.x = "s" => p.extra = "nothing"}

BorrowIllegal(p) == Invalid(p.kind, p.ad, p.x, Gone(p.kill))

\* the illegal order: the foundation is destroyed before the last use; the legal order: after it
Statements(p, late) ==
  Chain(p.x) \o (IF p.extra = "nothing" THEN <<>> ELSE <<p.extra>>)
             \o (IF late THEN <<p.kill, "use">> ELSE <<"use", "release", p.kill>>)

---------------------------------------------------------------------------
(* owners *)

OwnerPrograms ==
  {p \in [part : {"owner"}, kind : OwnKinds, how : {"get", "getgeneric", "clone", "seqtwice", "pullafterseq", "field", "mutiter", "takeslice", "counterstore",
                                                      "bufpull"}] : TRUE}
OwnerIllegal(p) == TRUE

---------------------------------------------------------------------------

All == ThreadPrograms \cup BorrowPrograms \cup OwnerPrograms

Illegal(p) == CASE p.part = "thread" -> ThreadIllegal(p)
                [] p.part = "borrow" -> BorrowIllegal(p)
                [] p.part = "owner"  -> OwnerIllegal(p)

---------------------------------------------------------------------------
(* generation: every program is an initial state; its rendering is written by the action *)

\* the only reason why the program is illegal
Class(p) == IF p.part = "thread" /\ ElementCrosses(p.kind, p.elem) /\ p.how # "spawn" /\ ~IterCrosses(p.kind, p.iter)
            THEN "wrapped-iterator-not-send" ELSE p.part

VARIABLES prog, done
gvars == <<prog, done>>

GInit == prog \in {p \in All : Illegal(p)} /\ done = FALSE
Line(p) == CASE p.part = "borrow" -> p @@ [stmts |-> Statements(p, TRUE), twin |-> Statements(p, FALSE)]
             [] p.part = "thread" -> p @@ [twin |-> ThreadTwin(p)]
             [] OTHER -> p
GNext == /\ ~done
         /\ done' = TRUE
         /\ PrintT("PROGRAM " \o ToJson(Line(prog) @@ [class |-> Class(prog)]))
         /\ UNCHANGED prog
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
