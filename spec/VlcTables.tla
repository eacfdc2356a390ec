------------------------------ MODULE VlcTables ------------------------------
(* The variable length codes of ISO/IEC 13818-2, Annex B, as tables of code   *)
(* words and values, and their decoding.  A decoding table is a function from *)
(* the next bits to the row of the code word they begin with, 0 if there is   *)
(* none.  The tables are also written to a file for the generator of streams  *)
(* (GenScen, scenario space "vlc").                                           *)
EXTENDS Integers, Sequences, TLC

\* Table B.1: macroblock_address_increment
IncRows ==
  << <<"1", 1>>, <<"011", 2>>, <<"010", 3>>,
     <<"0011", 4>>, <<"0010", 5>>, <<"0001 1", 6>>,
     <<"0001 0", 7>>, <<"0000 111", 8>>, <<"0000 110", 9>>,
     <<"0000 1011", 10>>, <<"0000 1010", 11>>, <<"0000 1001", 12>>,
     <<"0000 1000", 13>>, <<"0000 0111", 14>>, <<"0000 0110", 15>>,
     <<"0000 0101 11", 16>>, <<"0000 0101 10", 17>>, <<"0000 0101 01", 18>>,
     <<"0000 0101 00", 19>>, <<"0000 0100 11", 20>>, <<"0000 0100 10", 21>>,
     <<"0000 0100 011", 22>>, <<"0000 0100 010", 23>>, <<"0000 0100 001", 24>>,
     <<"0000 0100 000", 25>>, <<"0000 0011 111", 26>>, <<"0000 0011 110", 27>>,
     <<"0000 0011 101", 28>>, <<"0000 0011 100", 29>>, <<"0000 0011 011", 30>>,
     <<"0000 0011 010", 31>>, <<"0000 0011 001", 32>>, <<"0000 0011 000", 33>> >>
IncEscape == "0000 0001 000"

\* Tables B.2, B.3, B.4: macroblock_type: quant, forward, backward, pattern, intra
TypeIRows ==
  << <<"1", <<0, 0, 0, 0, 1>>>>, <<"01", <<1, 0, 0, 0, 1>>>> >>
TypePRows ==
  << <<"1", <<0, 1, 0, 1, 0>>>>, <<"01", <<0, 0, 0, 1, 0>>>>,
     <<"001", <<0, 1, 0, 0, 0>>>>, <<"0001 1", <<0, 0, 0, 0, 1>>>>,
     <<"0001 0", <<1, 1, 0, 1, 0>>>>, <<"0000 1", <<1, 0, 0, 1, 0>>>>,
     <<"0000 01", <<1, 0, 0, 0, 1>>>> >>
TypeBRows ==
  << <<"10", <<0, 1, 1, 0, 0>>>>, <<"11", <<0, 1, 1, 1, 0>>>>,
     <<"010", <<0, 0, 1, 0, 0>>>>, <<"011", <<0, 0, 1, 1, 0>>>>,
     <<"0010", <<0, 1, 0, 0, 0>>>>, <<"0011", <<0, 1, 0, 1, 0>>>>,
     <<"0001 1", <<0, 0, 0, 0, 1>>>>, <<"0001 0", <<1, 1, 1, 1, 0>>>>,
     <<"0000 11", <<1, 1, 0, 1, 0>>>>, <<"0000 10", <<1, 0, 1, 1, 0>>>>,
     <<"0000 01", <<1, 0, 0, 0, 1>>>> >>

\* Table B.9: coded_block_pattern (the first one is only for 4:2:2 and 4:4:4)
CbpRows ==
  << <<"0000 0000 1", 0>>, <<"0101 1", 1>>, <<"0100 1", 2>>,
     <<"0011 01", 3>>, <<"1101", 4>>, <<"0010 111", 5>>,
     <<"0010 011", 6>>, <<"0001 1111", 7>>, <<"1100", 8>>,
     <<"0010 110", 9>>, <<"0010 010", 10>>, <<"0001 1110", 11>>,
     <<"1001 1", 12>>, <<"0001 1011", 13>>, <<"0001 0111", 14>>,
     <<"0001 0011", 15>>, <<"1011", 16>>, <<"0010 101", 17>>,
     <<"0010 001", 18>>, <<"0001 1101", 19>>, <<"1000 1", 20>>,
     <<"0001 1001", 21>>, <<"0001 0101", 22>>, <<"0001 0001", 23>>,
     <<"0011 11", 24>>, <<"0000 1111", 25>>, <<"0000 1101", 26>>,
     <<"0000 0001 1", 27>>, <<"0111 1", 28>>, <<"0000 1011", 29>>,
     <<"0000 0111", 30>>, <<"0000 0011 1", 31>>, <<"1010", 32>>,
     <<"0010 100", 33>>, <<"0010 000", 34>>, <<"0001 1100", 35>>,
     <<"0011 10", 36>>, <<"0000 1110", 37>>, <<"0000 1100", 38>>,
     <<"0000 0001 0", 39>>, <<"1000 0", 40>>, <<"0001 1000", 41>>,
     <<"0001 0100", 42>>, <<"0001 0000", 43>>, <<"0111 0", 44>>,
     <<"0000 1010", 45>>, <<"0000 0110", 46>>, <<"0000 0011 0", 47>>,
     <<"1001 0", 48>>, <<"0001 1010", 49>>, <<"0001 0110", 50>>,
     <<"0001 0010", 51>>, <<"0110 1", 52>>, <<"0000 1001", 53>>,
     <<"0000 0101", 54>>, <<"0000 0010 1", 55>>, <<"0110 0", 56>>,
     <<"0000 1000", 57>>, <<"0000 0100", 58>>, <<"0000 0010 0", 59>>,
     <<"111", 60>>, <<"0101 0", 61>>, <<"0100 0", 62>>,
     <<"0011 00", 63>> >>

\* Table B.10: motion_code
MotionRows ==
  << <<"1", 0>>, <<"010", 1>>, <<"011", -1>>,
     <<"0010", 2>>, <<"0011", -2>>, <<"0001 0", 3>>,
     <<"0001 1", -3>>, <<"0000 110", 4>>, <<"0000 111", -4>>,
     <<"0000 1010", 5>>, <<"0000 1011", -5>>, <<"0000 1000", 6>>,
     <<"0000 1001", -6>>, <<"0000 0110", 7>>, <<"0000 0111", -7>>,
     <<"0000 0101 10", 8>>, <<"0000 0101 11", -8>>, <<"0000 0101 00", 9>>,
     <<"0000 0101 01", -9>>, <<"0000 0100 10", 10>>, <<"0000 0100 11", -10>>,
     <<"0000 0100 010", 11>>, <<"0000 0100 011", -11>>, <<"0000 0100 000", 12>>,
     <<"0000 0100 001", -12>>, <<"0000 0011 110", 13>>, <<"0000 0011 111", -13>>,
     <<"0000 0011 100", 14>>, <<"0000 0011 101", -14>>, <<"0000 0011 010", 15>>,
     <<"0000 0011 011", -15>>, <<"0000 0011 000", 16>>, <<"0000 0011 001", -16>> >>

\* Tables B.12, B.13: dct_dc_size
DcLumaRows ==
  << <<"100", 0>>, <<"00", 1>>, <<"01", 2>>, <<"101", 3>>,
     <<"110", 4>>, <<"1110", 5>>, <<"1111 0", 6>>, <<"1111 10", 7>>,
     <<"1111 110", 8>>, <<"1111 1110", 9>>, <<"1111 1111 0", 10>>, <<"1111 1111 1", 11>> >>
DcChromaRows ==
  << <<"00", 0>>, <<"01", 1>>, <<"10", 2>>, <<"110", 3>>,
     <<"1110", 4>>, <<"1111 0", 5>>, <<"1111 10", 6>>, <<"1111 110", 7>>,
     <<"1111 1110", 8>>, <<"1111 1111 0", 9>>, <<"1111 1111 10", 10>>, <<"1111 1111 11", 11>> >>

\* Tables B.14, B.15: coefficients: run and level (without the sign bit); run -1
\* is the end of the block and -2 the escape
Coef14Rows ==
  << <<"10", <<-1, 0>>>>, <<"0000 01", <<-2, 0>>>>, <<"11", <<0, 1>>>>,
     <<"0100", <<0, 2>>>>, <<"0010 1", <<0, 3>>>>, <<"0000 110", <<0, 4>>>>,
     <<"0010 0110", <<0, 5>>>>, <<"0010 0001", <<0, 6>>>>, <<"0000 0010 10", <<0, 7>>>>,
     <<"0000 0001 1101", <<0, 8>>>>, <<"0000 0001 1000", <<0, 9>>>>, <<"0000 0001 0011", <<0, 10>>>>,
     <<"0000 0001 0000", <<0, 11>>>>, <<"0000 0000 1101 0", <<0, 12>>>>, <<"0000 0000 1100 1", <<0, 13>>>>,
     <<"0000 0000 1100 0", <<0, 14>>>>, <<"0000 0000 1011 1", <<0, 15>>>>, <<"0000 0000 0111 11", <<0, 16>>>>,
     <<"0000 0000 0111 10", <<0, 17>>>>, <<"0000 0000 0111 01", <<0, 18>>>>, <<"0000 0000 0111 00", <<0, 19>>>>,
     <<"0000 0000 0110 11", <<0, 20>>>>, <<"0000 0000 0110 10", <<0, 21>>>>, <<"0000 0000 0110 01", <<0, 22>>>>,
     <<"0000 0000 0110 00", <<0, 23>>>>, <<"0000 0000 0101 11", <<0, 24>>>>, <<"0000 0000 0101 10", <<0, 25>>>>,
     <<"0000 0000 0101 01", <<0, 26>>>>, <<"0000 0000 0101 00", <<0, 27>>>>, <<"0000 0000 0100 11", <<0, 28>>>>,
     <<"0000 0000 0100 10", <<0, 29>>>>, <<"0000 0000 0100 01", <<0, 30>>>>, <<"0000 0000 0100 00", <<0, 31>>>>,
     <<"0000 0000 0011 000", <<0, 32>>>>, <<"0000 0000 0010 111", <<0, 33>>>>, <<"0000 0000 0010 110", <<0, 34>>>>,
     <<"0000 0000 0010 101", <<0, 35>>>>, <<"0000 0000 0010 100", <<0, 36>>>>, <<"0000 0000 0010 011", <<0, 37>>>>,
     <<"0000 0000 0010 010", <<0, 38>>>>, <<"0000 0000 0010 001", <<0, 39>>>>, <<"0000 0000 0010 000", <<0, 40>>>>,
     <<"011", <<1, 1>>>>, <<"0001 10", <<1, 2>>>>, <<"0010 0101", <<1, 3>>>>,
     <<"0000 0011 00", <<1, 4>>>>, <<"0000 0001 1011", <<1, 5>>>>, <<"0000 0000 1011 0", <<1, 6>>>>,
     <<"0000 0000 1010 1", <<1, 7>>>>, <<"0000 0000 0011 111", <<1, 8>>>>, <<"0000 0000 0011 110", <<1, 9>>>>,
     <<"0000 0000 0011 101", <<1, 10>>>>, <<"0000 0000 0011 100", <<1, 11>>>>, <<"0000 0000 0011 011", <<1, 12>>>>,
     <<"0000 0000 0011 010", <<1, 13>>>>, <<"0000 0000 0011 001", <<1, 14>>>>, <<"0000 0000 0001 0011", <<1, 15>>>>,
     <<"0000 0000 0001 0010", <<1, 16>>>>, <<"0000 0000 0001 0001", <<1, 17>>>>, <<"0000 0000 0001 0000", <<1, 18>>>>,
     <<"0101", <<2, 1>>>>, <<"0000 100", <<2, 2>>>>, <<"0000 0010 11", <<2, 3>>>>,
     <<"0000 0001 0100", <<2, 4>>>>, <<"0000 0000 1010 0", <<2, 5>>>>, <<"0011 1", <<3, 1>>>>,
     <<"0010 0100", <<3, 2>>>>, <<"0000 0001 1100", <<3, 3>>>>, <<"0000 0000 1001 1", <<3, 4>>>>,
     <<"0011 0", <<4, 1>>>>, <<"0000 0011 11", <<4, 2>>>>, <<"0000 0001 0010", <<4, 3>>>>,
     <<"0001 11", <<5, 1>>>>, <<"0000 0010 01", <<5, 2>>>>, <<"0000 0000 1001 0", <<5, 3>>>>,
     <<"0001 01", <<6, 1>>>>, <<"0000 0001 1110", <<6, 2>>>>, <<"0000 0000 0001 0100", <<6, 3>>>>,
     <<"0001 00", <<7, 1>>>>, <<"0000 0001 0101", <<7, 2>>>>, <<"0000 111", <<8, 1>>>>,
     <<"0000 0001 0001", <<8, 2>>>>, <<"0000 101", <<9, 1>>>>, <<"0000 0000 1000 1", <<9, 2>>>>,
     <<"0010 0111", <<10, 1>>>>, <<"0000 0000 1000 0", <<10, 2>>>>, <<"0010 0011", <<11, 1>>>>,
     <<"0000 0000 0001 1010", <<11, 2>>>>, <<"0010 0010", <<12, 1>>>>, <<"0000 0000 0001 1001", <<12, 2>>>>,
     <<"0010 0000", <<13, 1>>>>, <<"0000 0000 0001 1000", <<13, 2>>>>, <<"0000 0011 10", <<14, 1>>>>,
     <<"0000 0000 0001 0111", <<14, 2>>>>, <<"0000 0011 01", <<15, 1>>>>, <<"0000 0000 0001 0110", <<15, 2>>>>,
     <<"0000 0010 00", <<16, 1>>>>, <<"0000 0000 0001 0101", <<16, 2>>>>, <<"0000 0001 1111", <<17, 1>>>>,
     <<"0000 0001 1010", <<18, 1>>>>, <<"0000 0001 1001", <<19, 1>>>>, <<"0000 0001 0111", <<20, 1>>>>,
     <<"0000 0001 0110", <<21, 1>>>>, <<"0000 0000 1111 1", <<22, 1>>>>, <<"0000 0000 1111 0", <<23, 1>>>>,
     <<"0000 0000 1110 1", <<24, 1>>>>, <<"0000 0000 1110 0", <<25, 1>>>>, <<"0000 0000 1101 1", <<26, 1>>>>,
     <<"0000 0000 0001 1111", <<27, 1>>>>, <<"0000 0000 0001 1110", <<28, 1>>>>, <<"0000 0000 0001 1101", <<29, 1>>>>,
     <<"0000 0000 0001 1100", <<30, 1>>>>, <<"0000 0000 0001 1011", <<31, 1>>>> >>
Coef15Rows ==
  << <<"0110", <<-1, 0>>>>, <<"0000 01", <<-2, 0>>>>, <<"10", <<0, 1>>>>,
     <<"110", <<0, 2>>>>, <<"0111", <<0, 3>>>>, <<"1110 0", <<0, 4>>>>,
     <<"1110 1", <<0, 5>>>>, <<"0001 01", <<0, 6>>>>, <<"0001 00", <<0, 7>>>>,
     <<"1111 011", <<0, 8>>>>, <<"1111 100", <<0, 9>>>>, <<"0010 0011", <<0, 10>>>>,
     <<"0010 0010", <<0, 11>>>>, <<"1111 1010", <<0, 12>>>>, <<"1111 1011", <<0, 13>>>>,
     <<"1111 1110", <<0, 14>>>>, <<"1111 1111", <<0, 15>>>>, <<"0000 0000 0111 11", <<0, 16>>>>,
     <<"0000 0000 0111 10", <<0, 17>>>>, <<"0000 0000 0111 01", <<0, 18>>>>, <<"0000 0000 0111 00", <<0, 19>>>>,
     <<"0000 0000 0110 11", <<0, 20>>>>, <<"0000 0000 0110 10", <<0, 21>>>>, <<"0000 0000 0110 01", <<0, 22>>>>,
     <<"0000 0000 0110 00", <<0, 23>>>>, <<"0000 0000 0101 11", <<0, 24>>>>, <<"0000 0000 0101 10", <<0, 25>>>>,
     <<"0000 0000 0101 01", <<0, 26>>>>, <<"0000 0000 0101 00", <<0, 27>>>>, <<"0000 0000 0100 11", <<0, 28>>>>,
     <<"0000 0000 0100 10", <<0, 29>>>>, <<"0000 0000 0100 01", <<0, 30>>>>, <<"0000 0000 0100 00", <<0, 31>>>>,
     <<"0000 0000 0011 000", <<0, 32>>>>, <<"0000 0000 0010 111", <<0, 33>>>>, <<"0000 0000 0010 110", <<0, 34>>>>,
     <<"0000 0000 0010 101", <<0, 35>>>>, <<"0000 0000 0010 100", <<0, 36>>>>, <<"0000 0000 0010 011", <<0, 37>>>>,
     <<"0000 0000 0010 010", <<0, 38>>>>, <<"0000 0000 0010 001", <<0, 39>>>>, <<"0000 0000 0010 000", <<0, 40>>>>,
     <<"010", <<1, 1>>>>, <<"0011 0", <<1, 2>>>>, <<"1111 001", <<1, 3>>>>,
     <<"0010 0111", <<1, 4>>>>, <<"0010 0000", <<1, 5>>>>, <<"0000 0000 1011 0", <<1, 6>>>>,
     <<"0000 0000 1010 1", <<1, 7>>>>, <<"0000 0000 0011 111", <<1, 8>>>>, <<"0000 0000 0011 110", <<1, 9>>>>,
     <<"0000 0000 0011 101", <<1, 10>>>>, <<"0000 0000 0011 100", <<1, 11>>>>, <<"0000 0000 0011 011", <<1, 12>>>>,
     <<"0000 0000 0011 010", <<1, 13>>>>, <<"0000 0000 0011 001", <<1, 14>>>>, <<"0000 0000 0001 0011", <<1, 15>>>>,
     <<"0000 0000 0001 0010", <<1, 16>>>>, <<"0000 0000 0001 0001", <<1, 17>>>>, <<"0000 0000 0001 0000", <<1, 18>>>>,
     <<"0010 1", <<2, 1>>>>, <<"0000 111", <<2, 2>>>>, <<"1111 1100", <<2, 3>>>>,
     <<"0000 0011 00", <<2, 4>>>>, <<"0000 0000 1010 0", <<2, 5>>>>, <<"0011 1", <<3, 1>>>>,
     <<"0010 0110", <<3, 2>>>>, <<"0000 0001 1100", <<3, 3>>>>, <<"0000 0000 1001 1", <<3, 4>>>>,
     <<"0001 10", <<4, 1>>>>, <<"1111 1101", <<4, 2>>>>, <<"0000 0001 0010", <<4, 3>>>>,
     <<"0001 11", <<5, 1>>>>, <<"0000 0010 0", <<5, 2>>>>, <<"0000 0000 1001 0", <<5, 3>>>>,
     <<"0000 110", <<6, 1>>>>, <<"0000 0001 1110", <<6, 2>>>>, <<"0000 0000 0001 0100", <<6, 3>>>>,
     <<"0000 100", <<7, 1>>>>, <<"0000 0001 0101", <<7, 2>>>>, <<"0000 101", <<8, 1>>>>,
     <<"0000 0001 0001", <<8, 2>>>>, <<"1111 000", <<9, 1>>>>, <<"0000 0000 1000 1", <<9, 2>>>>,
     <<"1111 010", <<10, 1>>>>, <<"0000 0000 1000 0", <<10, 2>>>>, <<"0010 0001", <<11, 1>>>>,
     <<"0000 0000 0001 1010", <<11, 2>>>>, <<"0010 0101", <<12, 1>>>>, <<"0000 0000 0001 1001", <<12, 2>>>>,
     <<"0010 0100", <<13, 1>>>>, <<"0000 0000 0001 1000", <<13, 2>>>>, <<"0000 0010 1", <<14, 1>>>>,
     <<"0000 0000 0001 0111", <<14, 2>>>>, <<"0000 0011 1", <<15, 1>>>>, <<"0000 0000 0001 0110", <<15, 2>>>>,
     <<"0000 0011 01", <<16, 1>>>>, <<"0000 0000 0001 0101", <<16, 2>>>>, <<"0000 0001 1111", <<17, 1>>>>,
     <<"0000 0001 1010", <<18, 1>>>>, <<"0000 0001 1001", <<19, 1>>>>, <<"0000 0001 0111", <<20, 1>>>>,
     <<"0000 0001 0110", <<21, 1>>>>, <<"0000 0000 1111 1", <<22, 1>>>>, <<"0000 0000 1111 0", <<23, 1>>>>,
     <<"0000 0000 1110 1", <<24, 1>>>>, <<"0000 0000 1110 0", <<25, 1>>>>, <<"0000 0000 1101 1", <<26, 1>>>>,
     <<"0000 0000 0001 1111", <<27, 1>>>>, <<"0000 0000 0001 1110", <<28, 1>>>>, <<"0000 0000 0001 1101", <<29, 1>>>>,
     <<"0000 0000 0001 1100", <<30, 1>>>>, <<"0000 0000 0001 1011", <<31, 1>>>> >>

---------------------------------------------------------------------------
\* the length and the value of a code word written as digits and spaces
RECURSIVE CodeLen(_, _), CodeVal(_, _, _)
CodeLen(s, i) == IF i > Len(s) THEN 0 ELSE (IF SubSeq(s, i, i) = " " THEN 0 ELSE 1) + CodeLen(s, i + 1)
CodeVal(s, i, v) ==
  IF i > Len(s) THEN v
  ELSE LET c == SubSeq(s, i, i)
       IN CodeVal(s, i + 1, IF c = " " THEN v ELSE 2 * v + (IF c = "1" THEN 1 ELSE 0))

Parse(rows) ==
  TLCEval([i \in DOMAIN rows |-> [len |-> CodeLen(rows[i][1], 1), val |-> CodeVal(rows[i][1], 1, 0), v |-> rows[i][2]]])

\* which of the rows has a code word that the k bits v begin with
RowOf(rows, I, k, v) ==
  LET m == {i \in I : v \div 2^(k - rows[i].len) = rows[i].val}
  IN IF m = {} THEN 0 ELSE CHOOSE i \in m : TRUE

\* no code word is the beginning of another one
PrefixFree(rows) ==
  \A i, j \in DOMAIN rows : i # j /\ rows[i].len <= rows[j].len =>
     rows[j].val \div 2^(rows[j].len - rows[i].len) # rows[i].val

\* a table for code words of at most k <= 11 bits
Table(text, k) ==
  LET rows == Parse(text)
  IN [k |-> k, rows |-> rows, lut |-> TLCEval([v \in 0..(2^k - 1) |-> RowOf(rows, DOMAIN rows, k, v)])]

\* a table for the coefficients: code words of up to 16 bits.  Words longer
\* than 8 bits begin with six zero bits.
Table16(text) ==
  LET rows  == Parse(text)
      short == {i \in DOMAIN rows : rows[i].len <= 8}
      long  == DOMAIN rows \ short
  IN [rows |-> rows,
      lut  |-> TLCEval([v \in 0..255 |-> RowOf(rows, short, 8, v)]),
      lut2 |-> TLCEval([v \in 0..1023 |-> RowOf(rows, long, 16, v)])]

IncTable   == Table(IncRows, 11)
TypeTables == [I |-> Table(TypeIRows, 2), P |-> Table(TypePRows, 6), B |-> Table(TypeBRows, 6)]
CbpTable   == Table(CbpRows, 9)
MotionTable == Table(MotionRows, 11)
DcTables   == << Table(DcLumaRows, 9), Table(DcChromaRows, 10) >>
CoefTables == << Table16(Coef14Rows), Table16(Coef15Rows) >>

ASSUME \A t \in {IncTable, TypeTables.I, TypeTables.P, TypeTables.B, CbpTable, MotionTable,
                 DcTables[1], DcTables[2], CoefTables[1], CoefTables[2]} : PrefixFree(t.rows)
ASSUME \A i \in DOMAIN CoefTables[1].rows : CoefTables[1].rows[i].len > 8 => CoefTables[1].rows[i].val < 2^(CoefTables[1].rows[i].len - 6)
ASSUME \A i \in DOMAIN CoefTables[2].rows : CoefTables[2].rows[i].len > 8 => CoefTables[2].rows[i].val < 2^(CoefTables[2].rows[i].len - 6)
=============================================================================
