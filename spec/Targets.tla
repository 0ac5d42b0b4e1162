------------------------------ MODULE Targets ------------------------------
(* Targets: pointer width, byte order, ELF machine number, Mach-O cpu type    *)
(* (as a 64-bit value; <<>> when the format does not know the architecture).  *)
EXTENDS Integers, U64, TLC

T(bits, dat, em, cpu) == [bits |-> bits, dat |-> dat, em |-> em, cpu |-> cpu]
Cpu64(n) == <<0, 1, n>>      \* CPU_ARCH_ABI64 (0x01000000) | n
X86 == T(32, "L", 3, U(7))
Arm == T(32, "L", 40, U(12))
ArmB == T(32, "B", 40, U(12))
Mips == T(32, "B", 8, <<>>)
MipsL == T(32, "L", 8, <<>>)
Mips64 == T(64, "B", 8, <<>>)
Mips64L == T(64, "L", 8, <<>>)
Rv32 == T(32, "L", 243, <<>>)
Rv64 == T(64, "L", 243, <<>>)
Targets ==
  [x86_64 |-> T(64, "L", 62, Cpu64(7)), x32 |-> T(32, "L", 62, <<>>), i686 |-> X86, i586 |-> X86, i386 |-> X86,
   aarch64 |-> T(64, "L", 183, Cpu64(12)), aarch64_be |-> T(64, "B", 183, Cpu64(12)), ilp32 |-> T(32, "L", 183, <<>>),
   arm |-> Arm, armv4t |-> Arm, armv5te |-> Arm, armv6 |-> Arm, armv7 |-> Arm, armv7k |-> Arm, armv7m |-> Arm, armv7r |-> Arm, armv7s |-> Arm,
   armv8 |-> Arm, thumbv6m |-> Arm, thumbv7em |-> Arm, thumbv7m |-> Arm, thumbv7neon |-> Arm, armeb |-> ArmB, armebv7r |-> ArmB, thumbeb |-> ArmB,
   mips |-> Mips, mipsel |-> MipsL, mipsisa32r6 |-> Mips, mipsisa32r6el |-> MipsL,
   mips64 |-> Mips64, mips64el |-> Mips64L, mipsisa64r6 |-> Mips64, mipsisa64r6el |-> Mips64L,
   powerpc |-> T(32, "B", 20, U(18)), powerpc64 |-> T(64, "B", 21, Cpu64(18)), powerpc64le |-> T(64, "L", 21, Cpu64(18)),
   riscv32 |-> Rv32, riscv32gc |-> Rv32, riscv32i |-> Rv32, riscv32imac |-> Rv32, riscv64 |-> Rv64, riscv64gc |-> Rv64, riscv64imac |-> Rv64,
   s390x |-> T(64, "B", 22, <<>>), sparc |-> T(32, "B", 2, U(14)), sparc64 |-> T(64, "B", 43, <<>>), sparcv9 |-> T(64, "B", 43, <<>>)]
IsX86_64(a) == a.arch = "x86_64"
KnownArch(a) == a.arch \in DOMAIN Targets
Target(a) == Targets[a.arch]
Is32(a) == Target(a).bits = 32
=============================================================================
