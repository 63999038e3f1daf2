------------------------------ MODULE Loading -------------------------------
(***************************************************************************)
(* What a directory of wildcard files denotes.                             *)
(*                                                                         *)
(* A file is [dir |-> sequence of directory names, stem, ext, body]; the   *)
(* body of a .txt file is [t |-> "text", s], that of a .json or .yaml file *)
(* its data, or [t |-> "broken"].  Data is                                 *)
(*   [t |-> "s", s |-> text]      [t |-> "n"] (anything that is no text)   *)
(*   [t |-> "l", xs |-> data*]    [t |-> "d", kv |-> [str, k, v]*]         *)
(* where str tells whether the key is text, and a number has a field num   *)
(* (thousandths).                                                          *)
(***************************************************************************)
EXTENDS Wildcards

Item(s, w) == [s |-> s, w |-> w]

(* ------------------------------ text files ----------------------------- *)
\* Lines end with \n, \r or \r\n.
RECURSIVE Unify(_, _, _)
Unify(s, i, acc) ==
    IF i > Len(s) THEN acc
    ELSE IF At(s, i) = "\r" THEN Unify(s, IF At(s, i + 1) = "\n" THEN i + 2 ELSE i + 1, acc \o "\n")
    ELSE Unify(s, i + 1, acc \o At(s, i))
Wanted(line) == Strip(line) # "" /\ At(Strip(line), 1) # "#"
Lines(text) ==
    LET ls == SelectSeq(Split(Unify(text, 1, ""), "\n"), Wanted)
    IN [i \in 1..Len(ls) |-> Item(Strip(ls[i]), 1000)]

(* --------------------------- structured files -------------------------- *)
RFind(s, tok) ==   \* last position of tok, or 0
    IF \E i \in 1..Len(s) : StartsAt(s, i, tok)
    THEN CHOOSE i \in 1..Len(s) : StartsAt(s, i, tok) /\ \A j \in (i + 1)..Len(s) : ~StartsAt(s, j, tok)
    ELSE 0
AllDigits(s) == s # "" /\ \A i \in 1..Len(s) : At(s, i) \in Digits
\* Decimal text as thousandths; -1 if it is none.
Pow == <<1, 10, 100, 1000>>
Decimal(s) ==
    LET p == Find(s, 1, ".")
        ip == IF p = 0 THEN s ELSE Slice(s, 1, p)
        fp == IF p = 0 THEN "" ELSE From(s, p + 1)
    IN IF ~AllDigits(ip) \/ (fp # "" /\ ~AllDigits(fp)) \/ Len(fp) > 3 THEN -1
       ELSE Num(ip) * 1000 + (IF fp = "" THEN 0 ELSE Num(fp) * Pow[4 - Len(fp)])

Field(d, k) == IF \E i \in 1..Len(d.kv) : d.kv[i].str /\ d.kv[i].k = k
               THEN d.kv[CHOOSE i \in 1..Len(d.kv) : d.kv[i].str /\ d.kv[i].k = k].v
               ELSE [t |-> "none"]
Truthy(d) ==
    CASE d.t = "s" -> d.s # ""
      [] d.t = "l" -> d.xs # <<>>
      [] d.t = "d" -> d.kv # <<>>
      [] d.t = "n" -> d.num # 0
      [] OTHER -> FALSE
\* An entry of a list under a key: <<item>> or <<>>.
Entry(d) ==
    IF d.t = "s"
    THEN IF d.s = "" THEN <<>>
         ELSE LET p == RFind(d.s, "::")
                  w == IF p > 1 THEN Decimal(Strip(Slice(d.s, 1, p))) ELSE -1
              IN IF At(d.s, 1) \in Digits /\ w # -1 THEN << Item(From(d.s, p + 2), w) >>
                 ELSE << Item(d.s, 1000) >>
    ELSE IF d.t # "d" THEN <<>>
    ELSE LET txt == Field(d, "text")
             c == IF Truthy(txt) THEN txt ELSE Field(d, "content")
             wd == Field(d, "weight")
             w == CASE wd.t = "none" -> 1000
                    [] wd.t = "n" -> wd.num
                    [] wd.t = "s" -> Decimal(Strip(wd.s))
                    [] OTHER -> -1
         IN IF c.t = "s" /\ c.s # "" /\ w # -1 THEN << Item(c.s, w) >> ELSE <<>>
Entries(xs) == Flatten([i \in 1..Len(xs) |-> Entry(xs[i])])

RECURSIVE Keyed(_, _, _)
Keyed(kv, i, prefix) ==
    IF i > Len(kv) THEN <<>>
    ELSE LET e == kv[i]
             name == prefix \o e.k
             here == IF ~e.str \/ ~Truthy(e.v) THEN <<>>
                     ELSE CASE e.v.t = "s" -> << [n |-> name, items |-> Entries(<<e.v>>)] >>
                            [] e.v.t = "l" -> << [n |-> name, items |-> Entries(e.v.xs)] >>
                            [] e.v.t = "d" -> Keyed(e.v.kv, 1, name \o "/")
                            [] OTHER -> <<>>
         IN here \o Keyed(kv, i + 1, prefix)
Flat(xs) == SelectSeq(xs, LAMBDA d : d.t = "s" /\ d.s # "")

(* ------------------------------- a tree -------------------------------- *)
Hidden(f) == \E i \in 1..Len(f.dir) : StartsWith(f.dir[i], ".")
Under(f) == IF f.dir = <<>> THEN "" ELSE Join(f.dir, "/") \o "/"
OfFile(f) ==
    IF Hidden(f) THEN <<>>
    ELSE IF f.ext = ".txt" THEN << [n |-> Under(f) \o f.stem, items |-> Lines(f.body.s)] >>
    ELSE IF f.ext \notin {".json", ".yaml"} THEN <<>>
    ELSE CASE f.body.t = "d" -> Keyed(f.body.kv, 1, Under(f))
           [] f.body.t = "l" ->
                LET es == Flat(f.body.xs)
                IN IF es = <<>> THEN <<>>
                   ELSE << [n |-> Under(f) \o f.stem, items |-> [i \in 1..Len(es) |-> Item(es[i].s, 1000)]] >>
           [] OTHER -> <<>>
\* A later collection of the same name replaces an earlier one.
RECURSIVE Latest(_, _)
Latest(cs, acc) ==
    IF cs = <<>> THEN acc
    ELSE LET c == Head(cs) IN
         Latest(Tail(cs),
                IF \E i \in 1..Len(acc) : acc[i].n = c.n
                THEN [i \in 1..Len(acc) |-> IF acc[i].n = c.n THEN c ELSE acc[i]]
                ELSE Append(acc, c))
\* Roots: sequence of [prefix, files] (a directory) or [prefix, colls] (given directly).
OfRoot(r) ==
    LET cs == IF "files" \in DOMAIN r THEN Flatten([i \in 1..Len(r.files) |-> OfFile(r.files[i])]) ELSE r.colls
    IN [i \in 1..Len(cs) |-> [cs[i] EXCEPT !.n = StripSet(IF r.prefix = "" THEN @ ELSE r.prefix \o "/" \o @, {"/"})]]
Library(roots) == Latest(Flatten([i \in 1..Len(roots) |-> OfRoot(roots[i])]), <<>>)
=============================================================================
