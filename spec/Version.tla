------------------------------- MODULE Version -------------------------------
(***************************************************************************)
(* C26.  From the history of a repository to the version string.            *)
(*                                                                          *)
(* A small repository is built action by action: commits on one line of     *)
(* history, tags on commits, an edited working tree.  At any point the tree *)
(* may be archived (which freezes the references of the last commit into    *)
(* the source) or stripped of its history; then somebody asks for the       *)
(* version, in a style and with a tag prefix.  The answer is derived here   *)
(* from the history alone.  <F> stands for the full name of the last        *)
(* commit, <H> for its abbreviation and <D> for its date.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxC, MaxT, Jumps, TagNames, Branches, Styles, Prefixes, Levels, Quirks
(* a tag is [pre, body, ord]: pre is "" or "v"; ord gives the order of names *)
VARIABLES commits, tags, dirty, branch, frozen, place, ask, ans
vars == <<commits, tags, dirty, branch, frozen, place, ask, ans>>
None == "none"
NoAsk == [style |-> "", prefix |-> "", pd |-> 9, quirk |-> "none"]

Init == /\ commits = 1 /\ tags = {} /\ dirty = FALSE /\ branch \in Branches /\ frozen = <<>>
        /\ place = "work" /\ ask = NoAsk /\ ans = {}
Building == place = "work" /\ ans = {}
Commit == /\ Building /\ ~dirty /\ commits <= MaxC
          /\ \/ commits < MaxC /\ commits' = commits + 1
             \/ \E k \in Jumps : commits' = commits + k          \* a long stretch of work
          /\ UNCHANGED <<tags, dirty, branch, frozen, place, ask, ans>>
Tag == /\ Building /\ ~dirty /\ Cardinality(tags) < MaxT
       /\ \E t \in TagNames : /\ \A u \in tags : u.t # t
                              /\ tags' = tags \cup {[t |-> t, at |-> commits]}
       /\ UNCHANGED <<commits, dirty, branch, frozen, place, ask, ans>>
Edit == /\ Building /\ ~dirty /\ dirty' = TRUE /\ UNCHANGED <<commits, tags, branch, frozen, place, ask, ans>>
(* what an archive of the last commit says about itself *)
Freeze == <<[at |-> commits, tags |-> {u.t : u \in {w \in tags : w.at = commits}}, branch |-> branch]>>
Archive == /\ Building /\ ~dirty /\ frozen' = Freeze /\ place' = "archive"
           /\ UNCHANGED <<commits, tags, dirty, branch, ask, ans>>
Strip == /\ Building /\ ~dirty /\ tags = {} /\ commits = 1 /\ place' = "plain"
         /\ UNCHANGED <<commits, tags, dirty, branch, frozen, ask, ans>>

(* --------------------------------------------------------------- pieces *)
Fits(t, p) == p = "" \/ t.pre = p
Full(t) == t.pre \o t.body
Rest(t, p) == IF p = "" THEN Full(t) ELSE t.body
HasPlus(t) == t.plus
Known(p) == {u \in tags : Fits(u.t, p)}
(* the closest: no other fitting tag on a later commit *)
Closest(p) == {u \in Known(p) : \A w \in Known(p) : w.at <= u.at}
Str(n) == ToString(n)
Piece(u, p) == [tagged |-> TRUE, tag |-> Rest(u.t, p), plus |-> HasPlus(u.t), dist |-> commits - u.at, dirty |-> dirty]
Bare == [tagged |-> FALSE, tag |-> "", plus |-> FALSE, dist |-> commits, dirty |-> dirty]
Pieces(p) == IF Known(p) = {} THEN {Bare} ELSE {Piece(u, p) : u \in Closest(p)}
Sep(x) == IF x.plus THEN "." ELSE "+"
Moved(x) == x.dist > 0 \/ x.dirty
Opt(c, s) == IF c THEN s ELSE ""
Word(x, style) ==
  CASE style \in {"pep440", "default", ""} ->
         IF x.tagged THEN x.tag \o Opt(Moved(x), Sep(x) \o Str(x.dist) \o ".g<H>" \o Opt(x.dirty, ".dirty"))
         ELSE "0+untagged." \o Str(x.dist) \o ".g<H>" \o Opt(x.dirty, ".dirty")
    [] style = "pep440-pre" ->
         IF x.tagged THEN x.tag \o Opt(x.dist > 0, ".post.dev" \o Str(x.dist)) ELSE "0.post.dev" \o Str(x.dist)
    [] style = "pep440-post" ->
         IF x.tagged THEN x.tag \o Opt(Moved(x), ".post" \o Str(x.dist) \o Opt(x.dirty, ".dev0") \o Sep(x) \o "g<H>")
         ELSE "0.post" \o Str(x.dist) \o Opt(x.dirty, ".dev0") \o "+g<H>"
    [] style = "pep440-old" ->
         IF x.tagged THEN x.tag \o Opt(Moved(x), ".post" \o Str(x.dist) \o Opt(x.dirty, ".dev0"))
         ELSE "0.post" \o Str(x.dist) \o Opt(x.dirty, ".dev0")
    [] style = "git-describe" ->
         (IF x.tagged THEN x.tag \o Opt(x.dist > 0, "-" \o Str(x.dist) \o "-g<H>") ELSE "<H>") \o Opt(x.dirty, "-dirty")
    [] style = "git-describe-long" ->
         (IF x.tagged THEN x.tag \o "-" \o Str(x.dist) \o "-g<H>" ELSE "<H>") \o Opt(x.dirty, "-dirty")
    [] OTHER -> "raises"
Ans(v, id, d, e, date) == [version |-> v, id |-> id, dirty |-> d, error |-> e, date |-> date]
B(b) == IF b THEN "yes" ELSE "no"
FromVcs(p, style) == {Ans(Word(x, style), "<F>", B(x.dirty), FALSE, "<D>") : x \in Pieces(p)}
(* of the references of an archived commit: its tags; the name sorting first among those that fit *)
FromFrozen(p) ==
  LET f == frozen[1]
      ts == {t \in f.tags : Fits(t, p)}
  IN IF ts = {} THEN {Ans("0+unknown", "<F>", "no", TRUE, None)}
     ELSE {Ans(Rest(t, p), "<F>", "no", FALSE, "<D>") : t \in {u \in ts : \A w \in ts : u.ord <= w.ord}}
FromDir(pd) == IF pd <= 2 THEN {Ans("7." \o Str(pd), None, "no", FALSE, None)}
               ELSE {Ans("0+unknown", None, None, TRUE, None)}
(* git itself refusing or talking nonsense *)
Odd(q, pd) == IF q \in {"nonsense", "alien"} THEN {Ans("unknown", "<F>", None, TRUE, None)} ELSE FromDir(pd)

Ask == /\ ans = {}
       /\ \E st \in Styles, p \in Prefixes, pd \in Levels, q \in Quirks :
            /\ (place # "plain" /\ q = "none" => pd = 9)        \* a matching directory is not even looked at
            /\ (place # "work" => q = "none") /\ (place = "work" => branch = "master")
            /\ (q = "alien" => p # "")
            /\ (place # "work" => st = "pep440") /\ (q # "none" => st = "pep440" /\ commits = 1 /\ tags = {})
            /\ ask' = [style |-> st, prefix |-> p, pd |-> pd, quirk |-> q]
            /\ ans' = IF q # "none" THEN Odd(q, pd)
                      ELSE IF place = "work" THEN FromVcs(p, st)
                      ELSE IF place = "archive" THEN FromFrozen(p) ELSE FromDir(pd)
       /\ UNCHANGED <<commits, tags, dirty, branch, frozen, place>>
(* an archive unpacked inside a repository that has moved on *)
MoveOn == /\ place = "archive" /\ ans = {} /\ commits = frozen[1].at
          /\ commits' = commits + 1 /\ dirty' = TRUE
          /\ UNCHANGED <<tags, branch, frozen, place, ask, ans>>
Next == Commit \/ Tag \/ Edit \/ Archive \/ Strip \/ MoveOn \/ Ask
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------ properties *)
Asked == ans # {}
Regular == Asked /\ place = "work" /\ ask.quirk = "none"
(* a clean tree on a tagged commit is that release and nothing more, whatever the short style *)
Release == (Regular /\ ~dirty /\ ask.style \notin {"git-describe-long", "no-such"}) =>
   \A u \in Known(ask.prefix) : u.at = commits =>
      \A a \in ans : \E w \in Known(ask.prefix) : w.at = commits /\ a.version = Rest(w.t, ask.prefix)
(* no other tree passes for a release where the style shows edits and distance *)
NotARelease == (Regular /\ ask.style \in {"pep440", "pep440-post", "pep440-old", "git-describe"} /\
                (dirty \/ \A u \in Known(ask.prefix) : u.at < commits)) =>
   \A a \in ans : \A u \in Known(ask.prefix) : a.version # Rest(u.t, ask.prefix)
Never == Asked => ans # {} /\ \A a \in ans : a.version # "" /\ (a.version = "raises" => ask.style = "no-such")
(* a frozen tree does not depend on what happened to the repository later *)
FrozenStays == (Asked /\ place = "archive") =>
   \A a \in ans : a.error \/ \E t \in frozen[1].tags : a.version = Rest(t, ask.prefix)
Emit == Asked => PrintT("@@" \o ToJson([commits |-> commits, tags |-> tags, dirty |-> dirty, branch |-> branch,
                                        place |-> place, frozen |-> frozen, ask |-> ask, ans |-> ans]))

(* ------------------------------------------------------------- instances *)
Nm(pre, body, plus, ord) == [pre |-> pre, body |-> body, plus |-> plus, ord |-> ord]
SomeTags == { Nm("", "0.9-3-gabc", FALSE, 1), Nm("", "1.0", FALSE, 2), Nm("", "1.0+x.1", TRUE, 3),
              Nm("", "1.0rc1", FALSE, 4), Nm("v", "2.0-dirty", FALSE, 6) }
MoreTags == SomeTags \cup { Nm("v", "2.0", FALSE, 5), Nm("v", "2.1+y", TRUE, 7) }
AllStyles == {"pep440", "default", "", "pep440-pre", "pep440-post", "pep440-old", "git-describe", "git-describe-long", "no-such"}
TwoPrefixes == {"", "v"}
AllLevels == {0, 1, 2, 3, 9}
AllQuirks == {"none", "norepo", "nogit", "nodescribe", "nohead", "nonsense", "alien"}
TwoBranches == {"master", "v2-work"}
SomeJumps == {12}
MoreJumps == {12, 130}
=============================================================================
