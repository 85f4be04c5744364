#include "textflag.h"

// func readTSC() uint64
TEXT ·readTSC(SB), NOSPLIT, $0-8
	LFENCE
	RDTSC
	LFENCE
	SHLQ $32, DX
	ORQ  DX, AX
	MOVQ AX, ret+0(FP)
	RET
