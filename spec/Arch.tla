-------------------------------- MODULE Arch --------------------------------
(* The register files GDB expects: for every architecture the sequence of
   slots of the 'g' packet, the raw register numbers, the breakpoint kinds. *)
EXTENDS Integers, Sequences, SequencesExt, TLC

(* a slot: the register's name and width in bytes; "" is padding *)
Many(p, lo, hi, w) == [i \in 1..(hi - lo + 1) |-> <<p \o ToString(lo + i - 1), w>>]
Each(names, w) == [i \in 1..Len(names) |-> <<names[i], w>>]
Pad(w) == << <<"", w>> >>

MipsCore(w) == Many("r", 0, 31, w) \o Each(<<"status", "lo", "hi", "badvaddr", "cause", "pc">>, w)
               \o Many("f", 0, 31, w) \o Each(<<"fcsr", "fir">>, w)
MipsDsp(w) == MipsCore(w) \o Each(<<"hi1", "lo1", "hi2", "lo2", "hi3", "lo3">>, w)
              \o << <<"dspctl", 4>>, <<"restart", w>> >>
Msp(w) == Each(<<"pc", "sp", "sr">>, w) \o Pad(w) \o Many("r", 0, 11, w)
X87 == Each(<<"fctrl", "fstat", "ftag", "fiseg", "fioff", "foseg", "fooff", "fop">>, 4)
Segs == Each(<<"cs", "ss", "ds", "es", "fs", "gs">>, 4)

Slots == [
  arm |-> Many("r", 0, 12, 4) \o Each(<<"sp", "lr", "pc">>, 4) \o Pad(100) \o Each(<<"cpsr">>, 4),
  aarch64 |-> Many("x", 0, 30, 8) \o Each(<<"sp", "pc">>, 8) \o Each(<<"cpsr">>, 4) \o Many("v", 0, 31, 16)
              \o Each(<<"fpsr", "fpcr">>, 4),
  mips |-> MipsCore(4), mips64 |-> MipsCore(8), mipsdsp |-> MipsDsp(4), mips64dsp |-> MipsDsp(8),
  msp430 |-> Msp(2), msp430x |-> Msp(4),
  ppc |-> Many("r", 0, 31, 4) \o Many("f", 0, 31, 8) \o Each(<<"pc", "msr", "cr", "lr", "ctr", "xer", "fpscr">>, 4)
          \o Many("vr", 0, 31, 16) \o Each(<<"vscr", "vrsave">>, 4),
  riscv32 |-> Many("x", 0, 31, 4) \o Each(<<"pc">>, 4), riscv64 |-> Many("x", 0, 31, 8) \o Each(<<"pc">>, 8),
  x86 |-> Each(<<"eax", "ecx", "edx", "ebx", "esp", "ebp", "esi", "edi", "eip", "eflags">>, 4) \o Segs
          \o Many("st", 0, 7, 10) \o X87 \o Many("xmm", 0, 7, 16) \o Each(<<"mxcsr">>, 4) \o Pad(4),
  x86_64 |-> Many("g", 0, 15, 8) \o Each(<<"rip">>, 8) \o Each(<<"eflags">>, 4) \o Segs
          \o Many("st", 0, 7, 10) \o X87 \o Many("xmm", 0, 15, 16) \o Each(<<"mxcsr">>, 4) \o Pad(24)]
Archs == DOMAIN Slots

BigEndian == {"ppc"}
PcName == [a \in Archs |-> CASE a = "x86" -> "eip" [] a = "x86_64" -> "rip" [] OTHER -> "pc"]
(* files that must not be followed by anything *)
NotLonger == {"arm", "riscv32", "riscv64", "msp430", "msp430x"}

Width(ss) == FoldLeft(LAMBDA a, s : a + s[2], 0, ss)
Total == [a \in Archs |-> Width(Slots[a])]
(* where the last register ends *)
Needed == [a \in Archs |-> LET q == Slots[a] IN IF Last(q)[1] = "" THEN Total[a] - Last(q)[2] ELSE Total[a]]
Offset == [a \in Archs |->
             FoldLeft(LAMBDA m, s : [at |-> m.at + s[2], o |-> IF s[1] = "" THEN m.o ELSE m.o @@ (s[1] :> m.at)],
                      [at |-> 0, o |-> <<>>], Slots[a]).o]
Names == [a \in Archs |-> {Slots[a][i][1] : i \in 1..Len(Slots[a])} \ {""}]
WidthOf == [a \in Archs |-> [n \in Names[a] |-> Slots[a][CHOOSE i \in 1..Len(Slots[a]) : Slots[a][i][1] = n][2]]]

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
InOrder(a, v) == IF a \in BigEndian THEN v ELSE Rev(v)
(* fields f: name -> most significant byte first; 256 stands for padding *)
Serialized(a, f) ==
  FoldLeft(LAMBDA acc, s : acc \o (IF s[1] = "" THEN [i \in 1..s[2] |-> 256] ELSE InOrder(a, f[s[1]])), <<>>, Slots[a])
Read(a, in, n) == InOrder(a, SubSeq(in, Offset[a][n] + 1, Offset[a][n] + WidthOf[a][n]))

----------------------------------------------------------------------------
(* raw register numbers: the register's identifier and width *)
NoReg == <<"", 0>>
Idx(p, n) == p \o "(" \o ToString(n) \o ")"
SegN == <<"CS", "SS", "DS", "ES", "FS", "GS">>
FpuN == <<"Fctrl", "Fstat", "Ftag", "Fiseg", "Fioff", "Foseg", "Fooff", "Fop">>
MipsN == <<"Status", "Lo", "Hi", "Badvaddr", "Cause", "Pc">>
DspN == <<"Hi1", "Lo1", "Hi2", "Lo2", "Hi3", "Lo3">>
X86N == <<"Eax", "Ecx", "Edx", "Ebx", "Esp", "Ebp", "Esi", "Edi", "Eip", "Eflags">>

MipsReg(n, w) ==
  CASE n \in 0..31 -> <<Idx("Gpr", n), w>>
    [] n \in 32..37 -> <<MipsN[n - 31], w>>
    [] n \in 38..69 -> <<Idx("Fpr", n - 38), w>>
    [] n = 70 -> <<"Fcsr", w>> [] n = 71 -> <<"Fir", w>>
    [] n \in 72..77 -> <<DspN[n - 71], w>>
    [] n = 78 -> <<"Dspctl", 4>> [] n = 79 -> <<"Restart", w>>
    [] OTHER -> NoReg
MspReg(n, w) ==
  CASE n \in 0..3 -> << <<"Pc", "Sp", "Sr", "Cg">>[n + 1], w>>
    [] n \in 4..15 -> <<Idx("Gpr", n - 4), w>>
    [] OTHER -> NoReg
RiscvReg(n, w) ==
  CASE n \in 0..31 -> <<Idx("Gpr", n), w>> [] n = 32 -> <<"Pc", w>>
    [] n \in 33..64 -> <<Idx("Fpr", n - 33), w>>
    [] n \in 65..4160 -> <<Idx("Csr", n - 65), w>> [] n = 4161 -> <<"Priv", 1>>
    [] OTHER -> NoReg

Reg(a, n) ==
  CASE a = "arm" -> (CASE n \in 0..12 -> <<Idx("Gpr", n), 4>> [] n = 13 -> <<"Sp", 4>> [] n = 14 -> <<"Lr", 4>>
                       [] n = 15 -> <<"Pc", 4>> [] n \in 16..23 -> <<Idx("Fpr", n - 16), 12>>
                       [] n = 24 -> <<"Fps", 4>> [] n = 25 -> <<"Cpsr", 4>> [] OTHER -> NoReg)
    [] a = "aarch64" -> (CASE n \in 0..30 -> <<Idx("X", n), 8>> [] n = 31 -> <<"Sp", 8>> [] n = 32 -> <<"Pc", 8>>
                       [] n = 33 -> <<"Pstate", 4>> [] n \in 34..65 -> <<Idx("V", n - 34), 16>>
                       [] n = 66 -> <<Idx("System", 55841), 4>> [] n = 67 -> <<Idx("System", 55840), 4>>
                       [] n \in 32768..65535 -> <<Idx("System", n), 8>> [] OTHER -> NoReg)
    [] a \in {"mips", "mipsdsp"} -> MipsReg(n, 4)
    [] a \in {"mips64", "mips64dsp"} -> MipsReg(n, 8)
    [] a = "msp430" -> MspReg(n, 2) [] a = "msp430x" -> MspReg(n, 4)
    [] a = "ppc" -> NoReg
    [] a = "riscv32" -> RiscvReg(n, 4) [] a = "riscv64" -> RiscvReg(n, 8)
    [] a = "x86" -> (CASE n \in 0..9 -> <<X86N[n + 1], 4>> [] n \in 10..15 -> <<"Segment(" \o SegN[n - 9] \o ")", 4>>
                       [] n \in 16..23 -> <<Idx("St", n - 16), 10>> [] n \in 24..31 -> <<"Fpu(" \o FpuN[n - 23] \o ")", 4>>
                       [] n \in 32..39 -> <<Idx("Xmm", n - 32), 16>> [] n = 40 -> <<"Mxcsr", 4>> [] OTHER -> NoReg)
    [] a = "x86_64" -> (CASE n \in 0..15 -> <<Idx("Gpr", n), 8>> [] n = 16 -> <<"Rip", 8>> [] n = 17 -> <<"Eflags", 4>>
                       [] n \in 18..23 -> <<"Segment(" \o SegN[n - 17] \o ")", 4>> [] n \in 24..31 -> <<Idx("St", n - 24), 10>>
                       [] n \in 32..39 -> <<"Fpu(" \o FpuN[n - 31] \o ")", 4>>
                       [] n \in 40..55 -> <<Idx("Xmm", n - 40), 16>> [] n = 56 -> <<"Mxcsr", 4>> [] OTHER -> NoReg)

(* breakpoint kinds: "*" stands for the number itself *)
Kind(a, n) ==
  CASE a = "arm" -> (CASE n = 2 -> "Thumb16" [] n = 3 -> "Thumb32" [] n = 4 -> "Arm32" [] OTHER -> "")
    [] a \in {"mips", "mipsdsp", "mips64", "mips64dsp"} ->
         (CASE n = 2 -> "Mips16" [] n = 3 -> "MicroMips16" [] n = 4 -> "Mips32" [] n = 5 -> "MicroMips32" [] OTHER -> "")
    [] a = "unit" -> (IF n = 0 THEN "()" ELSE "")
    [] OTHER -> "*"

(* what the target description says *)
XmlArch == [arm |-> "armv4t", aarch64 |-> "aarch64", mips |-> "mips", mipsdsp |-> "mips", mips64 |-> "", mips64dsp |-> "",
            msp430 |-> "msp430", msp430x |-> "msp430x", ppc |-> "powerpc:common", riscv32 |-> "", riscv64 |-> "",
            x86 |-> "i386:intel", x86_64 |-> "i386:x86-64"]
RiscvAbi == <<"zero", "ra", "sp", "gp", "tp", "t0", "t1", "t2", "fp", "s1", "a0", "a1", "a2", "a3", "a4", "a5", "a6", "a7",
              "s2", "s3", "s4", "s5", "s6", "s7", "s8", "s9", "s10", "s11", "t3", "t4", "t5", "t6", "pc">>

(* consistency of the tables themselves *)
TablesOk ==
  \A a \in Archs :
    \* numbers below the first gap follow the slots: the sizes add up to the file
    /\ a # "ppc" => LET last == CASE a = "arm" -> 25 [] a = "aarch64" -> 67 [] a \in {"mips", "mips64"} -> 71
                             [] a \in {"mipsdsp", "mips64dsp"} -> 79 [] a \in {"msp430", "msp430x"} -> 15
                             [] a \in {"riscv32", "riscv64"} -> 32 [] a = "x86" -> 40 [] a = "x86_64" -> 56
           IN FoldLeft(LAMBDA x, n : x + Reg(a, n - 1)[2], 0, [i \in 1..(last + 1) |-> i]) = Needed[a]
    \* no two slots overlap, no name occurs twice
    /\ Len(SelectSeq(Slots[a], LAMBDA s : s[1] # "")) = Len(SelectSeq(Slots[a], LAMBDA s : s[1] \in Names[a]))
    /\ \A i, j \in 1..Len(Slots[a]) : i # j /\ Slots[a][i][1] = Slots[a][j][1] => Slots[a][i][1] = ""
=============================================================================
