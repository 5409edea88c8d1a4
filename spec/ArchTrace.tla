------------------------------ MODULE ArchTrace ------------------------------
(* Checks what the architecture definitions did against the tables in Arch.
   Every line of TRACE is one observation. *)
EXTENDS Arch, Json, IOUtils

Obs == ndJsonDeserialize(IOEnv.TRACE)
SysRegs == JsonDeserialize("sysregs.json")
SysOf == [n \in {SysRegs[i].n : i \in 1..Len(SysRegs)} |-> SysRegs[CHOOSE i \in 1..Len(SysRegs) : SysRegs[i].n = n].v]

Tags(list) == {list[i][1] : i \in {j \in 1..Len(list) : list[j][2]}}

Ser(e) ==
  LET a == e.arch
      zero == [i \in 1..Len(e.out) |-> IF e.out[i] = 256 THEN 0 ELSE e.out[i]]
  IN Tags(<< << "layout", e.out # Serialized(a, e.f) >>,
             << "pc", e.pc # e.f[PcName[a]] >>,
             << "rejected", e.ok # "ok" >>,
             << "roundtrip", e.ok = "ok" /\ \E n \in Names[a] : e.back[n] # e.f[n] >> >>)
De(e) ==
  LET a == e.arch
      n == Len(e.in)
      short == n < Needed[a]
      exact == n = Total[a]
      \* the constant generator of the MSP430 is always zero
      cg == a \in {"msp430", "msp430x"} /\ ~short
            /\ \E i \in (3 * (Total[a] \div 16) + 1)..(4 * (Total[a] \div 16)) : e.in[i] # 0
  IN Tags(<< << "panic", e.ok = "panic" >>,
             << "short", short /\ e.ok = "ok" >>,
             << "rejected", exact /\ ~cg /\ e.ok = "no" >>,
             << "read", ~short /\ e.ok = "ok" /\ \E m \in Names[a] : e.back[m] # Read(a, e.in, m) >> >>)
Ids(e) ==
  LET ex(i) == Reg(e.arch, e.lo + i - 1)
      at(i) == ToString(e.lo + i - 1) \o ":" \o ToString(e.sizes[i])
  IN {"id:" \o at(i) : i \in {j \in 1..Len(e.names) : e.names[j] # ex(j)[1]}}
     \cup {"size:" \o at(i) : i \in {j \in 1..Len(e.names) : e.names[j] = ex(j)[1] /\ e.sizes[j] # ex(j)[2]}}
Far(e) == Tags(<< << "found", \E i \in 1..Len(e.names) : e.names[i] # "" >> >>)
Bk(e) == Tags(<< << "kind", \E i \in 1..Len(e.names) :
                     LET k == Kind(e.arch, i - 1) IN e.names[i] # (IF k = "*" THEN ToString(i - 1) ELSE k) >> >>)
BkFar(e) == Tags(<< << "kind", \E i \in 1..Len(e.names) :
                     e.names[i] # (IF Kind(e.arch, 100) = "*" THEN e.raws[i] ELSE "") >> >>)
Xml(e) ==
  LET a == e.arch
      q == SelectSeq(Slots[a], LAMBDA s : s[1] # "")
      n == Len(q)
      regs == Len(e.names)
  IN Tags(<< << "architecture", e.name # XmlArch[a] >>,
             << "count", a \in {"aarch64", "riscv32", "riscv64"} /\ regs < n >>,
             << "numbers", a \in {"aarch64", "riscv32", "riscv64"} /\ regs >= n
                    /\ \E i \in 1..n : e.nums[i] # i - 1 \/ e.bits[i] # 8 * q[i][2]
                                      \/ e.names[i] # (IF a = "aarch64" THEN q[i][1] ELSE RiscvAbi[i]) >>,
             << "system", a = "aarch64" /\ regs >= n
                    /\ \E i \in (n + 1)..regs : e.names[i] \notin DOMAIN SysOf \/ e.nums[i] # SysOf[e.names[i]]
                                               \/ e.bits[i] # 8 * Reg(a, e.nums[i])[2] >> >>)
NamesOf(e) == Tags(<< << "names", \E i \in 1..Len(e.names) :
                   e.regs[i] # Idx("System", SysOf[e.names[i]]) >> >>)

Judge(e) ==
  CASE e.k = "ser" -> Ser(e) [] e.k = "de" -> De(e) [] e.k = "ids" -> Ids(e) [] e.k = "far" -> Far(e)
    [] e.k = "bk" -> Bk(e) [] e.k = "bkfar" -> BkFar(e) [] e.k = "xml" -> Xml(e) [] e.k = "names" -> NamesOf(e)

VARIABLES at, bad
Init == at \in 1..Len(Obs) /\ bad = Judge(Obs[at])
Next == FALSE /\ UNCHANGED <<at, bad>>
Conforms == \A t \in bad : PrintT("MISMATCH " \o Obs[at].id \o " 1 " \o Obs[at].k \o " " \o t)
ASSUME TablesOk
=============================================================================
