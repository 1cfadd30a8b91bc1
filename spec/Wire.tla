-------------------------------- MODULE Wire --------------------------------
(* How a value crosses a process boundary.  A value is a tree; native containers (list, dict) are encoded node  *)
(* by node, everything else as one opaque piece, and large buffers of arrays and frames leave the stream and    *)
(* travel separately, split into blocks.  The receiver puts the same tree together, as often as it reads the    *)
(* serialised form.  TLC checks that for every tree, threshold and block size below, and prints the trees: the  *)
(* harness sends each of them through the real code (harness/wire.py).                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS T,        \* size threshold of out-of-band buffers
          Blocks    \* block sizes

(* Leaves by the way they are encoded; "oob" leaves with the sizes of their buffers. *)
Native == {"none", "true", "false", "zero", "int", "negint", "imax", "imin", "umax", "float", "nan", "inf", "ninf", "negzero", "tiny",
           "str0", "str", "struni", "strsur", "strnul", "strbig", "bytes0", "bytes", "bytesbig", "list0", "dict0"}
OpaqueH == {"bigint", "negbig", "complex", "tuple0", "frozen0", "ellipsis", "notimpl", "range", "date", "timedelta", "decimal", "fraction", "uuid", "enum",
            "namedtuple", "frozendc", "intsub", "strsub", "bytessub", "floatsub", "npint", "npfloat32", "npbool", "npdt", "npstr", "nptd",
            "timestamp", "pdna", "nat", "func", "lambda", "closure", "class", "builtin", "npufunc", "type", "partial", "path", "maincls", "pattern",
            "msgts", "strenum", "genericalias"}
OpaqueN == {"slice", "set0", "deque", "odict", "ddict", "counter", "listsub", "dictsub", "setsub", "tuplesub", "slots", "reduce", "mainobj", "mainenum", "bound",
            "pdindex", "pdmindex", "pdinterval", "simplens", "keysview", "array", "exprgetter", "getstate", "newargs", "stringio", "bytesio",
            "random", "module"}
Oob == [  (* sizes relative to the threshold *)
  alt |-> <<T - 1>>, aeq |-> <<T>>, agt |-> <<T + 1>>, abig |-> <<4 * T + 1>>, aempty |-> <<0>>, azero |-> <<1>>, ashape0 |-> <<0>>,
  afort |-> <<T + 1>>, astride |-> <<>>, anegstride |-> <<>>, atrans |-> <<T + 1>>, abcast |-> <<>>, astruct |-> <<T + 1>>, aobj |-> <<>>,
  astr |-> <<T + 1>>, abytes |-> <<T + 1>>, adt |-> <<T + 1>>, acplx |-> <<T + 1>>, abe |-> <<T + 1>>, abool |-> <<T + 1>>, ahalf |-> <<T + 1>>,
  aro |-> <<T + 1>>, ashared |-> <<T + 1>>, amasked |-> <<T + 1, T + 1>>, asub |-> <<T + 1>>, arec |-> <<T + 1>>, aobjarr |-> <<>>,
  df |-> <<T + 1, T - 1>>, df2 |-> <<T + 1, T + 1>>, dfempty |-> <<0>>, dfcat |-> <<T + 1>>, dfmi |-> <<T + 1, T + 1>>, dftz |-> <<T + 1>>, dfobj |-> <<>>,
  dfnull |-> <<T + 1, T + 1>>, dfslice |-> <<T + 1>>, dfattrs |-> <<T + 1>>, dfdup |-> <<T + 1>>, ser |-> <<T + 1>>, serstr |-> <<>>, sercat |-> <<T - 1>>, sersub |-> <<T + 1>>,
  serper |-> <<T + 1>> ]
OobN == DOMAIN Oob
Leaves == Native \cup OpaqueH \cup OpaqueN \cup OobN
Hashable == (Native \ {"list0", "dict0", "nan"}) \cup OpaqueH

L(k) == [k |-> k, c |-> <<>>]
N(k, c) == [k |-> k, c |-> c]
Cont == {"list", "dict"}                                                        \* encoded node by node
Box == {"tuple", "obj", "odict1", "deque1", "objarr", "dfcell", "defarg", "partialarg", "mainattr"}  \* encoded as one piece, with what is inside
HBox == {"set", "frozenset", "dictk", "tupkey"}                                 \* hold hashable items
T0 == {L(k) : k \in Leaves}
BoxOnly == {"bytearray", "exttype"}  \* known findings elsewhere: the stream has encodings of its own for these
T1 == {N(k, <<x>>) : k \in Cont \cup Box, x \in T0} \cup {N(k, <<L(x)>>) : k \in Box, x \in BoxOnly}
      \cup {N(k, <<L(x)>>) : k \in HBox, x \in Hashable}
(* Several out-of-band items in one value: every order of pieces with 0, 1 and 2 buffers in and out of band. *)
Mix == {L("alt"), L("aeq"), L("agt"), L("df2"), L("df"), N("tuple", <<L("agt")>>), L("int")}
T2 == {N("list", <<a, b, c>>) : a, b, c \in Mix}
      \cup {N("dict", <<a, N("list", <<b, N("dict", <<a>>)>>), b>>) : a, b \in Mix}
T3 == {N(o, <<N(m, <<N(i, <<x>>)>>)>>) : o, m, i \in {"list", "dict", "tuple", "obj"}, x \in {L("agt"), L("df2"), L("mainobj"), L("set0"), L("strsur"), L("umax")}}
Trees == (T0 \cup T1 \cup T2 \cup T3) \ {N("dfcell", <<L("strsur")>>)}  \* pandas can not hold it

(***************************************************************************)
(* Encoding and decoding.                                                  *)
(***************************************************************************)
Large(s) == s >= T
Over(n) == SelectSeq(Oob[n], Large)

RECURSIVE Enc(_), EncAll(_)
(* [s |-> stream, b |-> buffers (owner, number, size), n |-> number of buffers of each frame] *)
Enc(x) ==
  IF x.k \in Cont
  THEN LET r == EncAll(x.c) IN [s |-> <<[t |-> "open", k |-> x.k, n |-> Len(x.c)]>> \o r.s, b |-> r.b, n |-> r.n]
  ELSE IF x.k \in OobN
  THEN [s |-> <<[t |-> "p5", k |-> x.k, n |-> Len(Over(x.k))]>>, b |-> [j \in 1..Len(Over(x.k)) |-> [o |-> x.k, j |-> j, z |-> Over(x.k)[j]]],
        n |-> <<Len(Over(x.k))>>]
  ELSE [s |-> <<[t |-> "atom", x |-> x]>>, b |-> <<>>, n |-> <<>>]
EncAll(xs) ==
  IF xs = <<>> THEN [s |-> <<>>, b |-> <<>>, n |-> <<>>]
  ELSE LET h == Enc(Head(xs)) t == EncAll(Tail(xs)) IN [s |-> h.s \o t.s, b |-> h.b \o t.b, n |-> h.n \o t.n]

Bad == [k |-> "corrupted", c |-> <<>>]
RECURSIVE Dec(_), DecN(_, _)
(* d = what is left of stream, buffers and counts; the result has the tree in x *)
Dec(d) ==
  LET h == Head(d.s) r == [d EXCEPT !.s = Tail(d.s)] IN
  IF h.t = "open" THEN LET q == DecN(r, h.n) IN [x |-> N(h.k, q.xs), s |-> q.s, b |-> q.b, n |-> q.n]
  ELSE IF h.t = "p5"
  THEN [x |-> IF \A j \in 1..h.n : j <= Len(r.b) /\ r.b[j].o = h.k /\ r.b[j].j = j THEN L(h.k) ELSE Bad,
        s |-> r.s, b |-> SubSeq(r.b, Head(r.n) + 1, Len(r.b)), n |-> Tail(r.n)]
  ELSE [x |-> h.x, s |-> r.s, b |-> r.b, n |-> r.n]
DecN(d, k) ==
  IF k = 0 THEN [xs |-> <<>>, s |-> d.s, b |-> d.b, n |-> d.n]
  ELSE LET h == Dec(d) t == DecN([s |-> h.s, b |-> h.b, n |-> h.n], k - 1) IN [xs |-> <<h.x>> \o t.xs, s |-> t.s, b |-> t.b, n |-> t.n]

(***************************************************************************)
(* The journey of one value.                                               *)
(***************************************************************************)
VARIABLES v, blk, pc, enc, chan, got, reads
vars == <<v, blk, pc, enc, chan, got, reads>>
Nil == [s |-> <<>>, b |-> <<>>, n |-> <<>>]
Init == /\ v \in Trees /\ blk \in Blocks /\ pc = "encode" /\ enc = Nil /\ chan = <<>> /\ got = Nil /\ reads = <<>>
Encode == /\ pc = "encode" /\ enc' = Enc(v) /\ pc' = "send" /\ got' = [Nil EXCEPT !.s = Enc(v).s, !.n = Enc(v).n]
          /\ UNCHANGED <<v, blk, chan, reads>>
Min(a, b) == IF a < b THEN a ELSE b
RECURSIVE Cut(_, _)
Cut(b, from) == IF from >= b.z THEN <<>> ELSE <<[o |-> b.o, j |-> b.j, f |-> from, z |-> Min(blk, b.z - from)]>> \o Cut(b, from + blk)
RECURSIVE CutAll(_)
CutAll(bs) == IF bs = <<>> THEN <<>> ELSE Cut(Head(bs), 0) \o CutAll(Tail(bs))
Send == pc = "send" /\ chan' = CutAll(enc.b) /\ pc' = "recv" /\ UNCHANGED <<v, blk, enc, got, reads>>
(* The receiver knows the sizes and takes as many blocks for a buffer as they imply. *)
Count(z) == (z + blk - 1) \div blk
Recv == /\ pc = "recv"
        /\ IF Len(got.b) = Len(enc.b) THEN pc' = "read" /\ UNCHANGED <<chan, got>>
           ELSE LET z == enc.b[Len(got.b) + 1].z
                    c == Count(z)
                    mine == SubSeq(chan, 1, c)
                    ok == /\ Len(chan) >= c
                          /\ \A i \in 1..c : mine[i].o = mine[1].o /\ mine[i].j = mine[1].j /\ mine[i].f = (i - 1) * blk /\ mine[i].z = Min(blk, z - (i - 1) * blk)
                IN /\ got' = [got EXCEPT !.b = Append(@, IF ok THEN [o |-> mine[1].o, j |-> mine[1].j, z |-> z] ELSE [o |-> "torn", j |-> 0, z |-> z])]
                   /\ chan' = SubSeq(chan, c + 1, Len(chan)) /\ pc' = pc
        /\ UNCHANGED <<v, blk, enc, reads>>
Read == /\ pc = "read" /\ Len(reads) < 2
        /\ LET d == Dec(got) IN reads' = Append(reads, [x |-> d.x, left |-> Len(d.b) + Len(d.s) + Len(d.n)])
        /\ UNCHANGED <<v, blk, pc, enc, chan, got>>
Next == Encode \/ Send \/ Recv \/ Read
Spec == Init /\ [][Next]_vars

Unchanged == \A i \in 1..Len(reads) : reads[i] = [x |-> v, left |-> 0]
NothingLeft == pc = "read" => chan = <<>> /\ got = enc
First == CHOOSE b \in Blocks : \A c \in Blocks : b <= c
Emit == (Len(reads) = 2 /\ blk = First) => PrintT(ToJson(v))
=============================================================================
