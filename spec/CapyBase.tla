------------------------------ MODULE CapyBase ------------------------------
(* Shared vocabulary of the CapyPDF specification: call records, results,     *)
(* number and string notation, facts.                                         *)
(*                                                                            *)
(* A call  c  is a record (see C below).  A step result is                    *)
(*   [s |-> new state, rc |-> 0 or an error, id |-> returned id, val |-> <<>>]*)
(* A fact is a triple <<topic, key, value>> of strings: one observable piece  *)
(* of the written document.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

EmptyCall == [f |-> "", o |-> "", h |-> <<>>, n |-> <<>>, i |-> <<>>, s |-> <<>>, z |-> <<>>,
              d |-> <<>>, hh |-> <<>>, ia |-> <<>>, out |-> ""]
C(f, o) == [EmptyCall EXCEPT !.f = f, !.o = o]
CN(f, o, n) == [EmptyCall EXCEPT !.f = f, !.o = o, !.n = n]
CH(f, o, h) == [EmptyCall EXCEPT !.f = f, !.o = o, !.h = h]
CI(f, o, i) == [EmptyCall EXCEPT !.f = f, !.o = o, !.i = i]
CS(f, o, str) == [EmptyCall EXCEPT !.f = f, !.o = o, !.s = <<str>>, !.z = <<-1>>]
CO(f, o, out) == [EmptyCall EXCEPT !.f = f, !.o = o, !.out = out]

Seq1(x) == <<x>>
ERR == 1                            \* "some error": codes are not part of the contract
NULLI == -99                        \* NULL passed for an optional integer
Ok(s)      == [s |-> s, rc |-> 0, id |-> "", val |-> <<>>]
OkId(s, id)== [s |-> s, rc |-> 0, id |-> id, val |-> <<>>]
OkVal(s, v)== [s |-> s, rc |-> 0, id |-> "", val |-> v]
Bad(s)     == [s |-> s, rc |-> ERR, id |-> "", val |-> <<>>]
\* A call the specification does not constrain (result and effect unknown to it).
If(s, ok, good) == IF ok THEN good ELSE Bad(s)

---------------------------------------------------------------------------
(* Numbers.  A double argument is written in thousandths; six reserved values *)
(* stand for the numbers that have no such notation.                          *)
NaN == 2000000001   PInf == 2000000002   NInf == 2000000003
Big == 2000000004   NBig == 2000000005   Tiny == 2000000006
Third == 2000000007   FineN == 2000000008   NTiny == 2000000009   NZero == 2000000010   Most == 2000000011
NegSize == 2000000012       \* in an array: it is given with a negative size
Finite(x) == x \notin {NaN, PInf, NInf, NegSize}
AllFinite(n) == \A k \in DOMAIN n : Finite(n[k])
Abs(x) == IF x < 0 THEN -x ELSE x
\* order on the represented numbers, NaN excluded
Rank(x) == CASE x = PInf -> 2000000000 [] x = Most -> 1999999999 [] x = Big -> 1999999998 [] x = NBig -> -1999999998
             [] x = NInf -> -2000000000 [] x \in {Tiny, NTiny, NZero} -> 0 [] x = Third -> 333 [] x = FineN -> 123456789 [] OTHER -> x
Side(x) == IF x \in {Tiny, Third, FineN} THEN 1 ELSE IF x = NTiny THEN -1 ELSE 0
Lt(a, b) == Rank(a) < Rank(b) \/ (Rank(a) = Rank(b) /\ Side(a) < Side(b))
Neg(x) == Lt(x, 0)
Pad3(x) == IF x < 10 THEN "00" \o ToString(x) ELSE IF x < 100 THEN "0" \o ToString(x) ELSE ToString(x)
Frac(x) == IF x = 0 THEN "" ELSE
           IF x % 100 = 0 THEN "." \o ToString(x \div 100) ELSE
           IF x % 10 = 0 THEN "." \o (IF x < 100 THEN "0" ELSE "") \o ToString(x \div 10)
           ELSE "." \o Pad3(x)
\* canonical decimal notation of a number given in thousandths
Dec(x) == CASE x = Big -> "100000000000000000000"
            [] x = NBig -> "-100000000000000000000"
            [] x = Tiny \/ x = NZero -> "0"
            [] x = Third -> "0.333333"
            [] x = FineN -> "123456.789012"
            [] x = NTiny -> "-0.000001"
            [] x = Most -> "179769313486231570814527423731704356798070567525844996598917476803157260780028538760589558632766878171540458953514382464234321326889464182768467546703537516986049910576551282076245490090389328944075868508455133942304583236903222948165808559332123347764797926204144723168738177180919299881250404026184124858368"
            [] OTHER -> (IF x < 0 THEN "-" ELSE "") \o ToString(Abs(x) \div 1000) \o Frac(Abs(x) % 1000)
Clamp(x) == IF x = NaN \/ Lt(x, 0) THEN 0 ELSE IF Lt(1000, x) THEN 1000 ELSE x
RECURSIVE JoinFrom(_, _, _)
JoinFrom(ss, sep, k) == IF k > Len(ss) THEN "" ELSE
                        IF k = Len(ss) THEN ss[k] ELSE ss[k] \o sep \o JoinFrom(ss, sep, k + 1)
HasSub(t, q) == \E k \in 1..(Len(t) + 1 - Len(q)) : SubSeq(t, k, k + Len(q) - 1) = q
Join(ss, sep) == JoinFrom(ss, sep, 1)
Decs(n) == [k \in DOMAIN n |-> Dec(n[k])]
NumStr(n) == Join(Decs(n), " ")
Arr(n) == "[" \o NumStr(n) \o "]"
Ints(n) == Join([k \in DOMAIN n |-> ToString(n[k])], " ")
Bool(b) == IF b = 0 THEN "false" ELSE "true"
IsBool(b) == b \in {0, 1}
\* unsigned 32 bit arguments arrive as signed; negative means large
InEnum(x, max) == x >= 0 /\ x <= max
ULess(a, b) == IF (a < 0) = (b < 0) THEN a < b ELSE b < 0
UStr(a) == IF a >= 0 THEN ToString(a) ELSE
           LET r == a + 2147483647 + 1   \* the value is r + 2147483648
               lo == (r % 100000) + 83648
               hi == (r \div 100000) + 21474 + lo \div 100000
               t == ToString(100000 + (lo % 100000)) IN ToString(hi) \o SubSeq(t, 2, 6)

---------------------------------------------------------------------------
(* Strings.  ASCII text stands for itself; "~uHEX;" is a code point (encoded  *)
(* in UTF-8), "~xHEX..;" raw bytes, "~rN,c;" N copies of c.                   *)
CharTable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Ch(s, k) == SubSeq(s, k, k)
CharOrd == [c \in {Ch(CharTable, k) : k \in 1..95} |-> 31 + (CHOOSE k \in 1..95 : Ch(CharTable, k) = c)]
HexVal == [c \in {Ch("0123456789ABCDEF", k) : k \in 1..16} |-> (CHOOSE k \in 1..16 : Ch("0123456789ABCDEF", k) = c) - 1]
HexDigit(v) == Ch("0123456789ABCDEF", v + 1)
RECURSIVE Hex(_)
Hex(v) == IF v < 16 THEN HexDigit(v) ELSE Hex(v \div 16) \o HexDigit(v % 16)
Hex2(v) == HexDigit(v \div 16) \o HexDigit(v % 16)
RECURSIVE FindCh(_, _, _)
FindCh(s, c, k) == IF Ch(s, k) = c THEN k ELSE FindCh(s, c, k + 1)
RECURSIVE HexNum(_, _, _, _)
HexNum(s, k, e, acc) == IF k > e THEN acc ELSE HexNum(s, k + 1, e, acc * 16 + HexVal[Ch(s, k)])
RECURSIVE DecNum(_, _, _, _)
DecNum(s, k, e, acc) == IF k > e THEN acc ELSE DecNum(s, k + 1, e, acc * 10 + HexVal[Ch(s, k)])

Utf8Enc(cp) ==
  IF cp < 128 THEN <<cp>> ELSE
  IF cp < 2048 THEN <<192 + cp \div 64, 128 + (cp % 64)>> ELSE
  IF cp < 65536 THEN <<224 + cp \div 4096, 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>
  ELSE <<240 + cp \div 262144, 128 + ((cp \div 4096) % 64), 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>

RECURSIVE BytesFrom(_, _)
BytesFrom(s, k) ==
  IF k > Len(s) THEN <<>> ELSE
  IF Ch(s, k) # "~" THEN <<CharOrd[Ch(s, k)]>> \o BytesFrom(s, k + 1) ELSE
  LET e == FindCh(s, ";", k) t == Ch(s, k + 1) IN
  CASE t = "u" -> Utf8Enc(HexNum(s, k + 2, e - 1, 0)) \o BytesFrom(s, e + 1)
    [] t = "x" -> [j \in 1..((e - k - 2) \div 2) |-> HexNum(s, k + 2*j, k + 2*j + 1, 0)] \o BytesFrom(s, e + 1)
    [] t = "r" -> LET q == FindCh(s, ",", k) IN
                  [j \in 1..DecNum(s, k + 2, q - 1, 0) |-> CharOrd[Ch(s, q + 1)]] \o BytesFrom(s, e + 1)
Plain(s) == \A k \in 1..Len(s) : Ch(s, k) # "~"
Bytes(s) == BytesFrom(s, 1)

\* Strict UTF-8 (RFC 3629): no overlong forms, no surrogates, nothing above 10FFFF.
Cont(b, k) == k <= Len(b) /\ b[k] >= 128 /\ b[k] < 192
RECURSIVE Utf8Dec(_, _, _)
Utf8Dec(b, k, acc) ==
  IF k > Len(b) THEN [ok |-> TRUE, cps |-> acc] ELSE
  LET x == b[k] IN
  IF x < 128 THEN Utf8Dec(b, k + 1, Append(acc, x)) ELSE
  IF x >= 194 /\ x < 224 /\ Cont(b, k+1) THEN Utf8Dec(b, k + 2, Append(acc, (x - 192) * 64 + b[k+1] - 128)) ELSE
  IF x >= 224 /\ x < 240 /\ Cont(b, k+1) /\ Cont(b, k+2)
     THEN LET v == (x - 224) * 4096 + (b[k+1] - 128) * 64 + b[k+2] - 128 IN
          IF v >= 2048 /\ ~(v >= 55296 /\ v <= 57343) THEN Utf8Dec(b, k + 3, Append(acc, v)) ELSE [ok |-> FALSE, cps |-> <<>>]
  ELSE IF x >= 240 /\ x < 245 /\ Cont(b, k+1) /\ Cont(b, k+2) /\ Cont(b, k+3)
     THEN LET v == (x - 240) * 262144 + (b[k+1] - 128) * 4096 + (b[k+2] - 128) * 64 + b[k+3] - 128 IN
          IF v >= 65536 /\ v <= 1114111 THEN Utf8Dec(b, k + 4, Append(acc, v)) ELSE [ok |-> FALSE, cps |-> <<>>]
  ELSE [ok |-> FALSE, cps |-> <<>>]

\* a Unicode scalar value
IsCp(v) == v >= 0 /\ v <= 1114111 /\ ~(v >= 55296 /\ v <= 57343)
\* canonical notation of a sequence of code points / of bytes
CanonCp(v) == IF v >= 32 /\ v < 126 THEN Ch(CharTable, v - 31) ELSE "~u" \o Hex(v) \o ";"
CanonText(cps) == FoldLeft(LAMBDA a, v : a \o CanonCp(v), "", cps)
CanonByte(v) == IF v >= 32 /\ v < 126 THEN Ch(CharTable, v - 31) ELSE "~x" \o Hex2(v) \o ";"
CanonBytes(b) == FoldLeft(LAMBDA a, v : a \o CanonByte(v), "", b)

UpToNul(b) == IF \E k \in DOMAIN b : b[k] = 0
              THEN SubSeq(b, 1, (CHOOSE k \in DOMAIN b : b[k] = 0 /\ \A j \in 1..(k-1) : b[j] # 0) - 1) ELSE b
\* the bytes a (pointer, size) argument denotes; size -1 = NUL terminated, -2 = exact length
ArgBytes(str, z) == LET b == Bytes(str) IN
   IF z = -1 THEN UpToNul(b) ELSE IF z = -2 THEN b ELSE SubSeq(b, 1, IF z > Len(b) THEN Len(b) ELSE z)
BadSize(z) == z < -2
\* text argument: [ok, t = canonical text, cps]
TextArg(str, z) ==
  IF str = "null" \/ BadSize(z) THEN [ok |-> FALSE, t |-> "", cps |-> <<>>] ELSE
  LET d == Utf8Dec(ArgBytes(str, z), 1, <<>>) IN
  IF ~d.ok \/ (\E k \in DOMAIN d.cps : d.cps[k] = 0) THEN [ok |-> FALSE, t |-> "", cps |-> <<>>]
  ELSE [ok |-> TRUE, t |-> CanonText(d.cps), cps |-> d.cps]
AsciiArg(str, z) ==
  IF str = "null" \/ BadSize(z) THEN [ok |-> FALSE, t |-> "", cps |-> <<>>] ELSE
  LET b == ArgBytes(str, z) IN
  IF \E k \in DOMAIN b : b[k] = 0 \/ b[k] > 127 THEN [ok |-> FALSE, t |-> "", cps |-> <<>>]
  ELSE [ok |-> TRUE, t |-> CanonBytes(b), cps |-> b]
\* name argument: at least two bytes, a leading slash is optional
NameArg(str, z) ==
  IF str = "null" \/ BadSize(z) THEN [ok |-> FALSE, t |-> "", cps |-> <<>>] ELSE
  LET b == ArgBytes(str, z) IN
  IF Len(b) < 2 \/ (\E k \in DOMAIN b : b[k] = 0) THEN [ok |-> FALSE, t |-> "", cps |-> <<>>]
  ELSE LET nb == IF b[1] = 47 THEN Tail(b) ELSE b IN [ok |-> TRUE, t |-> CanonBytes(nb), cps |-> nb]
RawArg(str, z) ==
  IF str = "null" \/ BadSize(z) THEN [ok |-> FALSE, t |-> "", cps |-> <<>>] ELSE
  LET b == ArgBytes(str, z) IN [ok |-> \A k \in DOMAIN b : b[k] # 0, t |-> CanonBytes(b), cps |-> b]
PStr(t) == "(" \o t \o ")"          \* how a string value is written in a fact
PName(t) == "/" \o t

---------------------------------------------------------------------------
(* Facts of one object: a set of <<path, value>>; Under prefixes and tags it. *)
KV(k, v) == {<<k, v>>}
OptKV(c, k, v) == IF c THEN {<<k, v>>} ELSE {}
Under(topic, label, kvs) == {<<topic, label \o kv[1], kv[2]>> : kv \in kvs}
Sub(prefix, kvs) == {<<prefix \o kv[1], kv[2]>> : kv \in kvs}
RefTo(label) == "->" \o label
Range1(q) == {q[k] : k \in DOMAIN q}
Upd(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in (DOMAIN f) \ {k} |-> f[x]]
=============================================================================
