-------------------------------- MODULE Num ---------------------------------
(* Text, wide integers and dates.  TLC integers have 32 bits, so numbers of  *)
(* 64 bits and more are little-endian byte sequences or digit sequences.     *)
EXTENDS Naturals, Integers, Sequences, SequencesExt, TLC

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [ch \in {SubSeq(Printable, i, i) : i \in 1..Len(Printable)} |->
             31 + (CHOOSE i \in 1..Len(Printable) : SubSeq(Printable, i, i) = ch)]
\* the ASCII bytes of a string literal
A(str) == [i \in 1..Len(str) |-> CodeOf[SubSeq(str, i, i)]]

IsDigit(c) == c >= 48 /\ c <= 57
HexVal(c) == IF IsDigit(c) THEN c - 48
             ELSE IF c >= 97 /\ c <= 102 THEN c - 87
             ELSE IF c >= 65 /\ c <= 70 THEN c - 55
             ELSE -1
IsHex(c) == HexVal(c) >= 0
Lower(s) == [i \in 1..Len(s) |-> IF s[i] >= 65 /\ s[i] <= 90 THEN s[i] + 32 ELSE s[i]]

\* the small natural number that digits spell (at most 9 of them)
RECURSIVE SmallNat(_)
SmallNat(s) == IF s = <<>> THEN 0 ELSE 10 * SmallNat(SubSeq(s, 1, Len(s) - 1)) + (s[Len(s)] - 48)

(* bs * m + a, modulo 256^Len(bs); 0 =< m < 2^22 *)
RECURSIVE MulAddRec(_, _, _, _)
MulAddRec(bs, m, carry, acc) ==
  IF Len(acc) = Len(bs) THEN [b |-> acc, c |-> carry]
  ELSE LET t == bs[Len(acc) + 1] * m + carry
       IN  MulAddRec(bs, m, t \div 256, Append(acc, t % 256))
MulAddC(bs, m, a) == MulAddRec(bs, m, a, <<>>)
MulAdd(bs, m, a) == MulAddC(bs, m, a).b

Zeros(n) == [i \in 1..n |-> 0]
RECURSIVE DecToBytesRec(_, _)
DecToBytesRec(ds, bs) == IF ds = <<>> THEN bs
                         ELSE DecToBytesRec(SubSeq(ds, 2, Len(ds)), MulAdd(bs, 10, ds[1]))
\* digits (most significant first) to n bytes; the caller leaves room for them
DecToBytes(ds, n) == DecToBytesRec(ds, Zeros(n))

RECURSIVE DivRec(_, _, _, _, _)
DivRec(bs, i, rem, acc, d) ==
  IF i = 0 THEN [q |-> acc, r |-> rem]
  ELSE LET t == rem * 256 + bs[i]
       IN  DivRec(bs, i - 1, t % d, << t \div d >> \o acc, d)
RECURSIVE TrimB(_)
TrimB(bs) == IF bs # <<>> /\ bs[Len(bs)] = 0 THEN TrimB(SubSeq(bs, 1, Len(bs) - 1)) ELSE bs
RECURSIVE BytesToDecRec(_, _)
BytesToDecRec(bs, acc) ==
  IF bs = <<>> THEN acc
  ELSE LET d == DivRec(bs, Len(bs), 0, <<>>, 10)
       IN  BytesToDecRec(TrimB(d.q), << d.r >> \o acc)
\* little-endian bytes to digits, most significant first, <<>> for zero
BytesToDec(bs) == BytesToDecRec(TrimB(bs), <<>>)

NegB(bs) == MulAdd([i \in 1..Len(bs) |-> 255 - bs[i]], 1, 1)
IsNeg64(bs) == bs[8] >= 128
SignExtend(bs) == bs \o [i \in 1..(8 - Len(bs)) |-> IF bs[Len(bs)] >= 128 THEN 255 ELSE 0]

\* two's complement 8 bytes of the decimal integer token s ("-12"); ok is
\* false when it does not fit
Int64Of(s) ==
  LET neg == s # <<>> /\ s[1] = 45
      ds  == [i \in 1..(Len(s) - (IF neg THEN 1 ELSE 0)) |-> s[i + (IF neg THEN 1 ELSE 0)] - 48]
  IN  IF Len(ds) > 19 THEN [ok |-> FALSE, b |-> Zeros(8)]
      ELSE LET m == DecToBytes(ds, 8)
           IN  IF ~IsNeg64(m) THEN [ok |-> TRUE, b |-> IF neg THEN NegB(m) ELSE m]
               ELSE IF neg /\ m = << 0, 0, 0, 0, 0, 0, 0, 128 >> THEN [ok |-> TRUE, b |-> m]
               ELSE [ok |-> FALSE, b |-> Zeros(8)]

(***************************************************************************)
(* RFC 3339 dates to milliseconds since the epoch (8 bytes)                *)
(***************************************************************************)
LeapYear(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == CASE m \in {4, 6, 9, 11} -> 30 [] m = 2 -> (IF LeapYear(y) THEN 29 ELSE 28) [] OTHER -> 31
DaysFromCivil(y, m, d) ==
  LET yy  == IF m <= 2 THEN y - 1 ELSE y
      era == yy \div 400
      yoe == yy - era * 400
      doy == (153 * (IF m > 2 THEN m - 3 ELSE m + 9) + 2) \div 5 + d - 1
      doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
  IN  era * 146097 + doe - 719468
MillisOf(days, secs, ms) ==   \* secs may lie outside the day
  LET dd == days + (secs \div 86400)
      ss == secs % 86400
      mag == MulAdd(MulAdd(<< (IF dd < 0 THEN -dd ELSE dd) % 256, ((IF dd < 0 THEN -dd ELSE dd) \div 256) % 256,
                              ((IF dd < 0 THEN -dd ELSE dd) \div 65536) % 256, 0, 0, 0, 0, 0 >>, 86400, 0), 1000, 0)
  IN  MulAdd(IF dd < 0 THEN NegB(mag) ELSE mag, 1, ss * 1000 + ms)

AllDigits(s, i, j) == \A k \in i..j : IsDigit(s[k])
Part(s, i, j) == SmallNat(SubSeq(s, i, j))
RECURSIVE DigitsEnd(_, _)
DigitsEnd(s, i) == IF i <= Len(s) /\ IsDigit(s[i]) THEN DigitsEnd(s, i + 1) ELSE i
\* [ok, b]: ok only for the strict form
DateOf(s) ==
  LET bad == [ok |-> FALSE, b |-> Zeros(8)] IN
  IF Len(s) < 20 THEN bad
  ELSE IF ~(/\ AllDigits(s, 1, 4) /\ s[5] = 45 /\ AllDigits(s, 6, 7) /\ s[8] = 45 /\ AllDigits(s, 9, 10) /\ s[11] = 84
            /\ AllDigits(s, 12, 13) /\ s[14] = 58 /\ AllDigits(s, 15, 16) /\ s[17] = 58 /\ AllDigits(s, 18, 19)) THEN bad
  ELSE LET fe == IF s[20] = 46 THEN DigitsEnd(s, 21) ELSE 20   \* where the zone starts
           fd == IF s[20] = 46 THEN SubSeq(s, 21, fe - 1) ELSE <<>>
           ms == 100 * (IF Len(fd) >= 1 THEN fd[1] - 48 ELSE 0) + 10 * (IF Len(fd) >= 2 THEN fd[2] - 48 ELSE 0) + (IF Len(fd) >= 3 THEN fd[3] - 48 ELSE 0)
           y == Part(s, 1, 4)  mo == Part(s, 6, 7)  d == Part(s, 9, 10)
           h == Part(s, 12, 13)  mi == Part(s, 15, 16)  se == Part(s, 18, 19)
           zulu == fe = Len(s) /\ s[fe] = 90
           off  == /\ fe + 5 = Len(s) /\ s[fe] \in {43, 45} /\ AllDigits(s, fe + 1, fe + 2) /\ s[fe + 3] = 58 /\ AllDigits(s, fe + 4, fe + 5)
                   /\ Part(s, fe + 1, fe + 2) <= 23 /\ Part(s, fe + 4, fe + 5) <= 59
           os == IF zulu THEN 0 ELSE (IF s[fe] = 45 THEN -1 ELSE 1) * (3600 * Part(s, fe + 1, fe + 2) + 60 * Part(s, fe + 4, fe + 5))
       IN  IF fe > Len(s) \/ (s[20] = 46 /\ fd = <<>>) THEN bad
           ELSE IF ~(zulu \/ off) THEN bad
           ELSE IF ~(mo \in 1..12 /\ h <= 23 /\ mi <= 59 /\ se <= 59) THEN bad
           ELSE IF ~(d \in 1..DaysIn(y, mo)) THEN bad
           ELSE [ok |-> TRUE, b |-> MillisOf(DaysFromCivil(y, mo, d), 3600 * h + 60 * mi + se - os, ms)]

(***************************************************************************)
(* base64 (standard alphabet, padded)                                      *)
(***************************************************************************)
B64 == A("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/")
B64Val == [c \in 0..255 |-> IF \E i \in 1..64 : B64[i] = c THEN (CHOOSE i \in 1..64 : B64[i] = c) - 1 ELSE -1]
Base64Of(s) ==
  LET n == Len(s)
      pad == IF n = 0 THEN 0 ELSE IF s[n] # 61 THEN 0 ELSE IF n > 1 /\ s[n - 1] = 61 THEN 2 ELSE 1
      ok == n % 4 = 0 /\ \A i \in 1..(n - pad) : B64Val[s[i]] >= 0
      v(i) == IF i > n - pad THEN 0 ELSE B64Val[s[i]]
      q(g) == LET x == v(4*g+1) * 262144 + v(4*g+2) * 4096 + v(4*g+3) * 64 + v(4*g+4)
              IN  << x \div 65536, (x \div 256) % 256, x % 256 >>
      all == FlattenSeq([g \in 1..(n \div 4) |-> q(g - 1)])
  IN  IF ~ok THEN [ok |-> FALSE, b |-> <<>>] ELSE [ok |-> TRUE, b |-> SubSeq(all, 1, Len(all) - pad)]

HexOf(s) == IF Len(s) % 2 = 0 /\ \A i \in 1..Len(s) : IsHex(s[i])
            THEN [ok |-> TRUE, b |-> [i \in 1..(Len(s) \div 2) |-> 16 * HexVal(s[2*i - 1]) + HexVal(s[2*i])]]
            ELSE [ok |-> FALSE, b |-> <<>>]
HexDigit == A("0123456789abcdef")
ToHex(b) == FlattenSeq([i \in 1..Len(b) |-> << HexDigit[1 + b[i] \div 16], HexDigit[1 + (b[i] % 16)] >>])
=============================================================================
