//! Generated by tools/gen_forms.py from the assembler's instruction forms.
use super::*;

fn part0(f: &mut F) {
    form!(f, adcb, "adcb", Gpr8, Gpr8);
    form!(f, adcb, "adcb", Gpr8, Memory);
    form!(f, adcb, "adcb", Memory, Gpr8);
    form!(f, adcb, "adcb", Gpr8, i8);
    form!(f, adcb, "adcb", Memory, i8);
    form!(f, adcb, "adcb", _Al, i8);
    form!(f, adcl, "adcl", Gpr32, Gpr32);
    form!(f, adcl, "adcl", Gpr32, Memory);
    form!(f, adcl, "adcl", Memory, Gpr32);
    form!(f, adcl, "adcl", Gpr32, i8);
    form!(f, adcl, "adcl", Memory, i8);
    form!(f, adcl, "adcl", Gpr32, i32);
    form!(f, adcl, "adcl", Memory, i32);
    form!(f, adcl, "adcl", _Eax, i32);
    form!(f, adcq, "adcq", Gpr64, Gpr64);
    form!(f, adcq, "adcq", Gpr64, Memory);
    form!(f, adcq, "adcq", Memory, Gpr64);
    form!(f, adcq, "adcq", Gpr64, i8);
    form!(f, adcq, "adcq", Memory, i8);
    form!(f, adcq, "adcq", Gpr64, i32);
    form!(f, adcq, "adcq", Memory, i32);
    form!(f, adcq, "adcq", _Rax, i32);
    form!(f, adcw, "adcw", Gpr16, Gpr16);
    form!(f, adcw, "adcw", Gpr16, Memory);
    form!(f, adcw, "adcw", Memory, Gpr16);
    form!(f, adcw, "adcw", Gpr16, i8);
    form!(f, adcw, "adcw", Memory, i8);
    form!(f, adcw, "adcw", Gpr16, i16);
    form!(f, adcw, "adcw", Memory, i16);
    form!(f, adcw, "adcw", _Ax, i16);
    form!(f, addb, "addb", Gpr8, Gpr8);
    form!(f, addb, "addb", Gpr8, Memory);
    form!(f, addb, "addb", Memory, Gpr8);
    form!(f, addb, "addb", Gpr8, i8);
    form!(f, addb, "addb", Memory, i8);
    form!(f, addb, "addb", _Al, i8);
    form!(f, addl, "addl", Gpr32, Gpr32);
    form!(f, addl, "addl", Gpr32, Memory);
    form!(f, addl, "addl", Memory, Gpr32);
    form!(f, addl, "addl", Gpr32, i8);
    form!(f, addl, "addl", Memory, i8);
    form!(f, addl, "addl", Gpr32, i32);
    form!(f, addl, "addl", Memory, i32);
    form!(f, addl, "addl", _Eax, i32);
    form!(f, addpd, "addpd", Xmm, Xmm);
    form!(f, addpd, "addpd", Xmm, Memory);
    form!(f, addps, "addps", Xmm, Xmm);
    form!(f, addps, "addps", Xmm, Memory);
    form!(f, addq, "addq", Gpr64, Gpr64);
    form!(f, addq, "addq", Gpr64, Memory);
    form!(f, addq, "addq", Memory, Gpr64);
    form!(f, addq, "addq", Gpr64, i8);
    form!(f, addq, "addq", Memory, i8);
    form!(f, addq, "addq", Gpr64, i32);
    form!(f, addq, "addq", Memory, i32);
    form!(f, addq, "addq", _Rax, i32);
    form!(f, addsd, "addsd", Xmm, Xmm);
    form!(f, addsd, "addsd", Xmm, Memory);
    form!(f, addss, "addss", Xmm, Xmm);
    form!(f, addss, "addss", Xmm, Memory);
    form!(f, addw, "addw", Gpr16, Gpr16);
    form!(f, addw, "addw", Gpr16, Memory);
    form!(f, addw, "addw", Memory, Gpr16);
    form!(f, addw, "addw", Gpr16, i8);
    form!(f, addw, "addw", Memory, i8);
    form!(f, addw, "addw", Gpr16, i16);
    form!(f, addw, "addw", Memory, i16);
    form!(f, addw, "addw", _Ax, i16);
    form!(f, andb, "andb", Gpr8, Gpr8);
    form!(f, andb, "andb", Gpr8, Memory);
    form!(f, andb, "andb", Memory, Gpr8);
    form!(f, andb, "andb", Gpr8, i8);
    form!(f, andb, "andb", Memory, i8);
    form!(f, andb, "andb", _Al, i8);
    form!(f, andl, "andl", Gpr32, Gpr32);
    form!(f, andl, "andl", Gpr32, Memory);
    form!(f, andl, "andl", Memory, Gpr32);
    form!(f, andl, "andl", Gpr32, i8);
    form!(f, andl, "andl", Memory, i8);
    form!(f, andl, "andl", Gpr32, i32);
    form!(f, andl, "andl", Memory, i32);
    form!(f, andl, "andl", _Eax, i32);
    form!(f, andnpd, "andnpd", Xmm, Xmm);
    form!(f, andnpd, "andnpd", Xmm, Memory);
    form!(f, andnps, "andnps", Xmm, Xmm);
    form!(f, andnps, "andnps", Xmm, Memory);
    form!(f, andpd, "andpd", Xmm, Xmm);
    form!(f, andpd, "andpd", Xmm, Memory);
    form!(f, andps, "andps", Xmm, Xmm);
    form!(f, andps, "andps", Xmm, Memory);
    form!(f, andq, "andq", Gpr64, Gpr64);
    form!(f, andq, "andq", Gpr64, Memory);
    form!(f, andq, "andq", Memory, Gpr64);
    form!(f, andq, "andq", Gpr64, i8);
    form!(f, andq, "andq", Memory, i8);
    form!(f, andq, "andq", Gpr64, i32);
    form!(f, andq, "andq", Memory, i32);
    form!(f, andq, "andq", _Rax, i32);
    form!(f, andw, "andw", Gpr16, Gpr16);
    form!(f, andw, "andw", Gpr16, Memory);
}

fn part1(f: &mut F) {
    form!(f, andw, "andw", Memory, Gpr16);
    form!(f, andw, "andw", Gpr16, i8);
    form!(f, andw, "andw", Memory, i8);
    form!(f, andw, "andw", Gpr16, i16);
    form!(f, andw, "andw", Memory, i16);
    form!(f, andw, "andw", _Ax, i16);
    form!(f, blendpd, "blendpd", Xmm, Xmm, i8);
    form!(f, blendpd, "blendpd", Xmm, Memory, i8);
    form!(f, blendps, "blendps", Xmm, Xmm, i8);
    form!(f, blendps, "blendps", Xmm, Memory, i8);
    form!(f, blendvpd, "blendvpd", Xmm, Xmm, _Xmm0);
    form!(f, blendvpd, "blendvpd", Xmm, Memory, _Xmm0);
    form!(f, blendvps, "blendvps", Xmm, Xmm, _Xmm0);
    form!(f, blendvps, "blendvps", Xmm, Memory, _Xmm0);
    form!(f, bsfl, "bsfl", Gpr32, Gpr32);
    form!(f, bsfl, "bsfl", Gpr32, Memory);
    form!(f, bsfq, "bsfq", Gpr64, Gpr64);
    form!(f, bsfq, "bsfq", Gpr64, Memory);
    form!(f, bsfw, "bsfw", Gpr16, Gpr16);
    form!(f, bsfw, "bsfw", Gpr16, Memory);
    form!(f, bsrl, "bsrl", Gpr32, Gpr32);
    form!(f, bsrl, "bsrl", Gpr32, Memory);
    form!(f, bsrq, "bsrq", Gpr64, Gpr64);
    form!(f, bsrq, "bsrq", Gpr64, Memory);
    form!(f, bsrw, "bsrw", Gpr16, Gpr16);
    form!(f, bsrw, "bsrw", Gpr16, Memory);
    form!(f, bswap, "bswap", Gpr32);
    form!(f, bswap, "bswap", Gpr64);
    form!(f, btcl, "btcl", Gpr32, Gpr32);
    form!(f, btcl, "btcl", Memory, Gpr32);
    form!(f, btcl, "btcl", Gpr32, i8);
    form!(f, btcl, "btcl", Memory, i8);
    form!(f, btcq, "btcq", Gpr64, Gpr64);
    form!(f, btcq, "btcq", Memory, Gpr64);
    form!(f, btcq, "btcq", Gpr64, i8);
    form!(f, btcq, "btcq", Memory, i8);
    form!(f, btcw, "btcw", Gpr16, Gpr16);
    form!(f, btcw, "btcw", Memory, Gpr16);
    form!(f, btcw, "btcw", Gpr16, i8);
    form!(f, btcw, "btcw", Memory, i8);
    form!(f, btl, "btl", Gpr32, Gpr32);
    form!(f, btl, "btl", Memory, Gpr32);
    form!(f, btl, "btl", Gpr32, i8);
    form!(f, btl, "btl", Memory, i8);
    form!(f, btq, "btq", Gpr64, Gpr64);
    form!(f, btq, "btq", Memory, Gpr64);
    form!(f, btq, "btq", Gpr64, i8);
    form!(f, btq, "btq", Memory, i8);
    form!(f, btrl, "btrl", Gpr32, Gpr32);
    form!(f, btrl, "btrl", Memory, Gpr32);
    form!(f, btrl, "btrl", Gpr32, i8);
    form!(f, btrl, "btrl", Memory, i8);
    form!(f, btrq, "btrq", Gpr64, Gpr64);
    form!(f, btrq, "btrq", Memory, Gpr64);
    form!(f, btrq, "btrq", Gpr64, i8);
    form!(f, btrq, "btrq", Memory, i8);
    form!(f, btrw, "btrw", Gpr16, Gpr16);
    form!(f, btrw, "btrw", Memory, Gpr16);
    form!(f, btrw, "btrw", Gpr16, i8);
    form!(f, btrw, "btrw", Memory, i8);
    form!(f, btsl, "btsl", Gpr32, Gpr32);
    form!(f, btsl, "btsl", Memory, Gpr32);
    form!(f, btsl, "btsl", Gpr32, i8);
    form!(f, btsl, "btsl", Memory, i8);
    form!(f, btsq, "btsq", Gpr64, Gpr64);
    form!(f, btsq, "btsq", Memory, Gpr64);
    form!(f, btsq, "btsq", Gpr64, i8);
    form!(f, btsq, "btsq", Memory, i8);
    form!(f, btsw, "btsw", Gpr16, Gpr16);
    form!(f, btsw, "btsw", Memory, Gpr16);
    form!(f, btsw, "btsw", Gpr16, i8);
    form!(f, btsw, "btsw", Memory, i8);
    form!(f, btw, "btw", Gpr16, Gpr16);
    form!(f, btw, "btw", Memory, Gpr16);
    form!(f, btw, "btw", Gpr16, i8);
    form!(f, btw, "btw", Memory, i8);
    form!(f, callq, "callq", i32);
    form!(f, callq, "callq", Gpr64);
    form!(f, callq, "callq", Memory);
    form!(f, cbtw, "cbtw");
    form!(f, clc, "clc");
    form!(f, cld, "cld");
    form!(f, cli, "cli");
    form!(f, cltd, "cltd");
    form!(f, cltq, "cltq");
    form!(f, clts, "clts");
    form!(f, cmc, "cmc");
    form!(f, cmpb, "cmpb", Gpr8, Gpr8);
    form!(f, cmpb, "cmpb", Gpr8, Memory);
    form!(f, cmpb, "cmpb", Memory, Gpr8);
    form!(f, cmpb, "cmpb", Gpr8, i8);
    form!(f, cmpb, "cmpb", Memory, i8);
    form!(f, cmpb, "cmpb", _Al, i8);
    form!(f, cmpl, "cmpl", Gpr32, Gpr32);
    form!(f, cmpl, "cmpl", Gpr32, Memory);
    form!(f, cmpl, "cmpl", Memory, Gpr32);
    form!(f, cmpl, "cmpl", Gpr32, i8);
    form!(f, cmpl, "cmpl", Memory, i8);
    form!(f, cmpl, "cmpl", Gpr32, i32);
    form!(f, cmpl, "cmpl", Memory, i32);
}

fn part2(f: &mut F) {
    form!(f, cmpl, "cmpl", _Eax, i32);
    form!(f, cmppd, "cmppd", Xmm, Xmm, i8);
    form!(f, cmppd, "cmppd", Xmm, Memory, i8);
    form!(f, cmpps, "cmpps", Xmm, Xmm, i8);
    form!(f, cmpps, "cmpps", Xmm, Memory, i8);
    form!(f, cmpq, "cmpq", Gpr64, Gpr64);
    form!(f, cmpq, "cmpq", Gpr64, Memory);
    form!(f, cmpq, "cmpq", Memory, Gpr64);
    form!(f, cmpq, "cmpq", Gpr64, i8);
    form!(f, cmpq, "cmpq", Memory, i8);
    form!(f, cmpq, "cmpq", Gpr64, i32);
    form!(f, cmpq, "cmpq", Memory, i32);
    form!(f, cmpq, "cmpq", _Rax, i32);
    form!(f, cmpsd, "cmpsd", Xmm, Xmm, i8);
    form!(f, cmpsd, "cmpsd", Xmm, Memory, i8);
    form!(f, cmpsl, "cmpsl");
    form!(f, cmpss, "cmpss", Xmm, Xmm, i8);
    form!(f, cmpss, "cmpss", Xmm, Memory, i8);
    form!(f, cmpw, "cmpw", Gpr16, Gpr16);
    form!(f, cmpw, "cmpw", Gpr16, Memory);
    form!(f, cmpw, "cmpw", Memory, Gpr16);
    form!(f, cmpw, "cmpw", Gpr16, i8);
    form!(f, cmpw, "cmpw", Memory, i8);
    form!(f, cmpw, "cmpw", Gpr16, i16);
    form!(f, cmpw, "cmpw", Memory, i16);
    form!(f, cmpw, "cmpw", _Ax, i16);
    form!(f, cmpxchgb, "cmpxchgb", Gpr8, Gpr8);
    form!(f, cmpxchgb, "cmpxchgb", Memory, Gpr8);
    form!(f, cmpxchgl, "cmpxchgl", Gpr32, Gpr32);
    form!(f, cmpxchgl, "cmpxchgl", Memory, Gpr32);
    form!(f, cmpxchgq, "cmpxchgq", Gpr64, Gpr64);
    form!(f, cmpxchgq, "cmpxchgq", Memory, Gpr64);
    form!(f, cmpxchgw, "cmpxchgw", Gpr16, Gpr16);
    form!(f, cmpxchgw, "cmpxchgw", Memory, Gpr16);
    form!(f, comisd, "comisd", Xmm, Xmm);
    form!(f, comisd, "comisd", Xmm, Memory);
    form!(f, comiss, "comiss", Xmm, Xmm);
    form!(f, comiss, "comiss", Xmm, Memory);
    form!(f, cpuid, "cpuid");
    form!(f, cqto, "cqto");
    form!(f, crc32b, "crc32b", Gpr32, Gpr8);
    form!(f, crc32b, "crc32b", Gpr32, Memory);
    form!(f, crc32b, "crc32b", Gpr64, Gpr8);
    form!(f, crc32b, "crc32b", Gpr64, Memory);
    form!(f, crc32l, "crc32l", Gpr32, Gpr32);
    form!(f, crc32l, "crc32l", Gpr32, Memory);
    form!(f, crc32q, "crc32q", Gpr64, Gpr64);
    form!(f, crc32q, "crc32q", Gpr64, Memory);
    form!(f, crc32w, "crc32w", Gpr32, Gpr16);
    form!(f, crc32w, "crc32w", Gpr32, Memory);
    form!(f, cvtdq2pd, "cvtdq2pd", Xmm, Xmm);
    form!(f, cvtdq2pd, "cvtdq2pd", Xmm, Memory);
    form!(f, cvtdq2ps, "cvtdq2ps", Xmm, Xmm);
    form!(f, cvtdq2ps, "cvtdq2ps", Xmm, Memory);
    form!(f, cvtpd2dq, "cvtpd2dq", Xmm, Xmm);
    form!(f, cvtpd2dq, "cvtpd2dq", Xmm, Memory);
    form!(f, cvtpd2ps, "cvtpd2ps", Xmm, Xmm);
    form!(f, cvtpd2ps, "cvtpd2ps", Xmm, Memory);
    form!(f, cvtps2dq, "cvtps2dq", Xmm, Xmm);
    form!(f, cvtps2dq, "cvtps2dq", Xmm, Memory);
    form!(f, cvtps2pd, "cvtps2pd", Xmm, Xmm);
    form!(f, cvtps2pd, "cvtps2pd", Xmm, Memory);
    form!(f, cvtsd2si, "cvtsd2si", Gpr32, Xmm);
    form!(f, cvtsd2si, "cvtsd2si", Gpr32, Memory);
    form!(f, cvtsd2si, "cvtsd2si", Gpr64, Xmm);
    form!(f, cvtsd2si, "cvtsd2si", Gpr64, Memory);
    form!(f, cvtsd2ss, "cvtsd2ss", Xmm, Xmm);
    form!(f, cvtsd2ss, "cvtsd2ss", Xmm, Memory);
    form!(f, cvtsi2sdl, "cvtsi2sdl", Xmm, Gpr32);
    form!(f, cvtsi2sdl, "cvtsi2sdl", Xmm, Memory);
    form!(f, cvtsi2sdq, "cvtsi2sdq", Xmm, Gpr64);
    form!(f, cvtsi2sdq, "cvtsi2sdq", Xmm, Memory);
    form!(f, cvtsi2ssl, "cvtsi2ssl", Xmm, Gpr32);
    form!(f, cvtsi2ssl, "cvtsi2ssl", Xmm, Memory);
    form!(f, cvtsi2ssq, "cvtsi2ssq", Xmm, Gpr64);
    form!(f, cvtsi2ssq, "cvtsi2ssq", Xmm, Memory);
    form!(f, cvtss2sd, "cvtss2sd", Xmm, Xmm);
    form!(f, cvtss2sd, "cvtss2sd", Xmm, Memory);
    form!(f, cvtss2si, "cvtss2si", Gpr32, Xmm);
    form!(f, cvtss2si, "cvtss2si", Gpr32, Memory);
    form!(f, cvtss2si, "cvtss2si", Gpr64, Xmm);
    form!(f, cvtss2si, "cvtss2si", Gpr64, Memory);
    form!(f, cvttpd2dq, "cvttpd2dq", Xmm, Xmm);
    form!(f, cvttpd2dq, "cvttpd2dq", Xmm, Memory);
    form!(f, cvttps2dq, "cvttps2dq", Xmm, Xmm);
    form!(f, cvttps2dq, "cvttps2dq", Xmm, Memory);
    form!(f, cvttsd2si, "cvttsd2si", Gpr32, Xmm);
    form!(f, cvttsd2si, "cvttsd2si", Gpr32, Memory);
    form!(f, cvttsd2si, "cvttsd2si", Gpr64, Xmm);
    form!(f, cvttsd2si, "cvttsd2si", Gpr64, Memory);
    form!(f, cvttss2si, "cvttss2si", Gpr32, Xmm);
    form!(f, cvttss2si, "cvttss2si", Gpr32, Memory);
    form!(f, cvttss2si, "cvttss2si", Gpr64, Xmm);
    form!(f, cvttss2si, "cvttss2si", Gpr64, Memory);
    form!(f, cwtd, "cwtd");
    form!(f, cwtl, "cwtl");
    form!(f, decb, "decb", Gpr8);
    form!(f, decb, "decb", Memory);
    form!(f, decl, "decl", Gpr32);
    form!(f, decl, "decl", Memory);
}

fn part3(f: &mut F) {
    form!(f, decq, "decq", Gpr64);
    form!(f, decq, "decq", Memory);
    form!(f, decw, "decw", Gpr16);
    form!(f, decw, "decw", Memory);
    form!(f, divb, "divb", Gpr8);
    form!(f, divb, "divb", Memory);
    form!(f, divl, "divl", Gpr32);
    form!(f, divl, "divl", Memory);
    form!(f, divpd, "divpd", Xmm, Xmm);
    form!(f, divpd, "divpd", Xmm, Memory);
    form!(f, divps, "divps", Xmm, Xmm);
    form!(f, divps, "divps", Xmm, Memory);
    form!(f, divq, "divq", Gpr64);
    form!(f, divq, "divq", Memory);
    form!(f, divsd, "divsd", Xmm, Xmm);
    form!(f, divsd, "divsd", Xmm, Memory);
    form!(f, divss, "divss", Xmm, Xmm);
    form!(f, divss, "divss", Xmm, Memory);
    form!(f, divw, "divw", Gpr16);
    form!(f, divw, "divw", Memory);
    form!(f, dppd, "dppd", Xmm, Xmm, i8);
    form!(f, dppd, "dppd", Xmm, Memory, i8);
    form!(f, dpps, "dpps", Xmm, Xmm, i8);
    form!(f, dpps, "dpps", Xmm, Memory, i8);
    form!(f, emms, "emms");
    form!(f, extractps, "extractps", Gpr64, Xmm, i8);
    form!(f, extractps, "extractps", Memory, Xmm, i8);
    form!(f, hlt, "hlt");
    form!(f, idivb, "idivb", Gpr8);
    form!(f, idivb, "idivb", Memory);
    form!(f, idivl, "idivl", Gpr32);
    form!(f, idivl, "idivl", Memory);
    form!(f, idivq, "idivq", Gpr64);
    form!(f, idivq, "idivq", Memory);
    form!(f, idivw, "idivw", Gpr16);
    form!(f, idivw, "idivw", Memory);
    form!(f, imulb, "imulb", Gpr8);
    form!(f, imulb, "imulb", Memory);
    form!(f, imull, "imull", Gpr32, Gpr32, i8);
    form!(f, imull, "imull", Gpr32, Memory, i8);
    form!(f, imull, "imull", Gpr32, Gpr32, i32);
    form!(f, imull, "imull", Gpr32, Memory, i32);
    form!(f, imull1, "imull1", Gpr32);
    form!(f, imull1, "imull1", Memory);
    form!(f, imull2, "imull2", Gpr32, Gpr32);
    form!(f, imull2, "imull2", Gpr32, Memory);
    form!(f, imulq, "imulq", Gpr64, Gpr64, i8);
    form!(f, imulq, "imulq", Gpr64, Memory, i8);
    form!(f, imulq, "imulq", Gpr64, Gpr64, i32);
    form!(f, imulq, "imulq", Gpr64, Memory, i32);
    form!(f, imulq1, "imulq1", Gpr64);
    form!(f, imulq1, "imulq1", Memory);
    form!(f, imulq2, "imulq2", Gpr64, Gpr64);
    form!(f, imulq2, "imulq2", Gpr64, Memory);
    form!(f, imulw, "imulw", Gpr16, Gpr16, i8);
    form!(f, imulw, "imulw", Gpr16, Memory, i8);
    form!(f, imulw, "imulw", Gpr16, Gpr16, i16);
    form!(f, imulw, "imulw", Gpr16, Memory, i16);
    form!(f, imulw1, "imulw1", Gpr16);
    form!(f, imulw1, "imulw1", Memory);
    form!(f, imulw2, "imulw2", Gpr16, Gpr16);
    form!(f, imulw2, "imulw2", Gpr16, Memory);
    form!(f, inb, "inb", _Al, i8);
    form!(f, inb, "inb", _Al, _Dx);
    form!(f, incb, "incb", Gpr8);
    form!(f, incb, "incb", Memory);
    form!(f, incl, "incl", Gpr32);
    form!(f, incl, "incl", Memory);
    form!(f, incq, "incq", Gpr64);
    form!(f, incq, "incq", Memory);
    form!(f, incw, "incw", Gpr16);
    form!(f, incw, "incw", Memory);
    form!(f, inl, "inl", _Eax, i8);
    form!(f, inl, "inl", _Eax, _Dx);
    form!(f, insertps, "insertps", Xmm, Xmm, i8);
    form!(f, insertps, "insertps", Xmm, Memory, i8);
    form!(f, int, "int", i8);
    form!(f, int, "int", _3);
    form!(f, invd, "invd");
    form!(f, invlpg, "invlpg", Memory);
    form!(f, inw, "inw", _Ax, i8);
    form!(f, inw, "inw", _Ax, _Dx);
    form!(f, iretl, "iretl");
    form!(f, iretq, "iretq");
    form!(f, iretw, "iretw");
    form!(f, ja, "ja", i8);
    form!(f, ja, "ja", i32);
    form!(f, jae, "jae", i8);
    form!(f, jae, "jae", i32);
    form!(f, jb, "jb", i8);
    form!(f, jb, "jb", i32);
    form!(f, jbe, "jbe", i8);
    form!(f, jbe, "jbe", i32);
    form!(f, jc, "jc", i8);
    form!(f, jc, "jc", i32);
    form!(f, je, "je", i8);
    form!(f, je, "je", i32);
    form!(f, jecxz, "jecxz", i8);
    form!(f, jg, "jg", i8);
    form!(f, jg, "jg", i32);
}

fn part4(f: &mut F) {
    form!(f, jge, "jge", i8);
    form!(f, jge, "jge", i32);
    form!(f, jl, "jl", i8);
    form!(f, jl, "jl", i32);
    form!(f, jle, "jle", i8);
    form!(f, jle, "jle", i32);
    form!(f, jmpq, "jmpq", i8);
    form!(f, jmpq, "jmpq", i32);
    form!(f, jmpq, "jmpq", Gpr64);
    form!(f, jmpq, "jmpq", Memory);
    form!(f, jna, "jna", i8);
    form!(f, jna, "jna", i32);
    form!(f, jnae, "jnae", i8);
    form!(f, jnae, "jnae", i32);
    form!(f, jnb, "jnb", i8);
    form!(f, jnb, "jnb", i32);
    form!(f, jnbe, "jnbe", i8);
    form!(f, jnbe, "jnbe", i32);
    form!(f, jnc, "jnc", i8);
    form!(f, jnc, "jnc", i32);
    form!(f, jne, "jne", i8);
    form!(f, jne, "jne", i32);
    form!(f, jng, "jng", i8);
    form!(f, jng, "jng", i32);
    form!(f, jnge, "jnge", i8);
    form!(f, jnge, "jnge", i32);
    form!(f, jnl, "jnl", i8);
    form!(f, jnl, "jnl", i32);
    form!(f, jnle, "jnle", i8);
    form!(f, jnle, "jnle", i32);
    form!(f, jno, "jno", i8);
    form!(f, jno, "jno", i32);
    form!(f, jnp, "jnp", i8);
    form!(f, jnp, "jnp", i32);
    form!(f, jns, "jns", i8);
    form!(f, jns, "jns", i32);
    form!(f, jnz, "jnz", i8);
    form!(f, jnz, "jnz", i32);
    form!(f, jo, "jo", i8);
    form!(f, jo, "jo", i32);
    form!(f, jp, "jp", i8);
    form!(f, jp, "jp", i32);
    form!(f, jpe, "jpe", i8);
    form!(f, jpe, "jpe", i32);
    form!(f, jpo, "jpo", i8);
    form!(f, jpo, "jpo", i32);
    form!(f, jrcxz, "jrcxz", i8);
    form!(f, js, "js", i8);
    form!(f, js, "js", i32);
    form!(f, jz, "jz", i8);
    form!(f, jz, "jz", i32);
    form!(f, ldmxcsr, "ldmxcsr", Memory);
    form!(f, leal, "leal", Gpr32, Memory);
    form!(f, leaq, "leaq", Gpr64, Memory);
    form!(f, leaveq, "leaveq");
    form!(f, leavew, "leavew");
    form!(f, leaw, "leaw", Gpr16, Memory);
    form!(f, lfence, "lfence");
    form!(f, lmsw, "lmsw", Gpr16);
    form!(f, lmsw, "lmsw", Memory);
    form!(f, lock, "lock");
    form!(f, maskmovdqu, "maskmovdqu", Xmm, Xmm);
    form!(f, maxpd, "maxpd", Xmm, Xmm);
    form!(f, maxpd, "maxpd", Xmm, Memory);
    form!(f, maxps, "maxps", Xmm, Xmm);
    form!(f, maxps, "maxps", Xmm, Memory);
    form!(f, maxsd, "maxsd", Xmm, Xmm);
    form!(f, maxsd, "maxsd", Xmm, Memory);
    form!(f, maxss, "maxss", Xmm, Xmm);
    form!(f, maxss, "maxss", Xmm, Memory);
    form!(f, mfence, "mfence");
    form!(f, minpd, "minpd", Xmm, Xmm);
    form!(f, minpd, "minpd", Xmm, Memory);
    form!(f, minps, "minps", Xmm, Xmm);
    form!(f, minps, "minps", Xmm, Memory);
    form!(f, minsd, "minsd", Xmm, Xmm);
    form!(f, minsd, "minsd", Xmm, Memory);
    form!(f, minss, "minss", Xmm, Xmm);
    form!(f, minss, "minss", Xmm, Memory);
    form!(f, movapd, "movapd", Xmm, Xmm);
    form!(f, movapd, "movapd", Xmm, Memory);
    form!(f, movapd, "movapd", Memory, Xmm);
    form!(f, movaps, "movaps", Xmm, Xmm);
    form!(f, movaps, "movaps", Xmm, Memory);
    form!(f, movaps, "movaps", Memory, Xmm);
    form!(f, movb, "movb", Gpr8, i8);
    form!(f, movb, "movb", Gpr8, Gpr8);
    form!(f, movb, "movb", Gpr8, Memory);
    form!(f, movb, "movb", Memory, Gpr8);
    form!(f, movb, "movb", Memory, i8);
    form!(f, movd, "movd", Gpr32, Xmm);
    form!(f, movd, "movd", Memory, Xmm);
    form!(f, movd, "movd", Xmm, Gpr32);
    form!(f, movd, "movd", Xmm, Memory);
    form!(f, movdqa, "movdqa", Xmm, Xmm);
    form!(f, movdqa, "movdqa", Xmm, Memory);
    form!(f, movdqa, "movdqa", Memory, Xmm);
    form!(f, movdqu, "movdqu", Xmm, Xmm);
    form!(f, movdqu, "movdqu", Xmm, Memory);
    form!(f, movdqu, "movdqu", Memory, Xmm);
}

fn part5(f: &mut F) {
    form!(f, movhlps, "movhlps", Xmm, Xmm);
    form!(f, movhpd, "movhpd", Memory, Xmm);
    form!(f, movhpd, "movhpd", Xmm, Memory);
    form!(f, movhps, "movhps", Memory, Xmm);
    form!(f, movhps, "movhps", Xmm, Memory);
    form!(f, movl, "movl", Gpr32, i32);
    form!(f, movl, "movl", Gpr32, Gpr32);
    form!(f, movl, "movl", Gpr32, Memory);
    form!(f, movl, "movl", Memory, Gpr32);
    form!(f, movl, "movl", Memory, i32);
    form!(f, movlhps, "movlhps", Xmm, Xmm);
    form!(f, movlpd, "movlpd", Memory, Xmm);
    form!(f, movlpd, "movlpd", Xmm, Memory);
    form!(f, movlps, "movlps", Memory, Xmm);
    form!(f, movlps, "movlps", Xmm, Memory);
    form!(f, movmskpd, "movmskpd", Gpr64, Xmm);
    form!(f, movmskps, "movmskps", Gpr64, Xmm);
    form!(f, movntdq, "movntdq", Memory, Xmm);
    form!(f, movntdqa, "movntdqa", Xmm, Memory);
    form!(f, movnti, "movnti", Memory, Gpr32);
    form!(f, movnti, "movnti", Memory, Gpr64);
    form!(f, movntpd, "movntpd", Memory, Xmm);
    form!(f, movntps, "movntps", Memory, Xmm);
    form!(f, movq, "movq", Gpr64, i64);
    form!(f, movq, "movq", Gpr64, Gpr64);
    form!(f, movq, "movq", Gpr64, Memory);
    form!(f, movq, "movq", Memory, Gpr64);
    form!(f, movq, "movq", Gpr64, i32);
    form!(f, movq, "movq", Memory, i32);
    form!(f, movq, "movq", Gpr64, Xmm);
    form!(f, movq, "movq", Memory, Xmm);
    form!(f, movq, "movq", Xmm, Gpr64);
    form!(f, movq, "movq", Xmm, Memory);
    form!(f, movq, "movq", Xmm, Xmm);
    form!(f, movsbl, "movsbl", Gpr32, Gpr8);
    form!(f, movsbl, "movsbl", Gpr32, Memory);
    form!(f, movsbq, "movsbq", Gpr64, Gpr8);
    form!(f, movsbq, "movsbq", Gpr64, Memory);
    form!(f, movsbw, "movsbw", Gpr16, Gpr8);
    form!(f, movsbw, "movsbw", Gpr16, Memory);
    form!(f, movsd, "movsd", Xmm, Xmm);
    form!(f, movsd, "movsd", Xmm, Memory);
    form!(f, movsd, "movsd", Memory, Xmm);
    form!(f, movsl, "movsl");
    form!(f, movslq, "movslq", Gpr64, Gpr32);
    form!(f, movslq, "movslq", Gpr64, Memory);
    form!(f, movss, "movss", Xmm, Xmm);
    form!(f, movss, "movss", Xmm, Memory);
    form!(f, movss, "movss", Memory, Xmm);
    form!(f, movswl, "movswl", Gpr32, Gpr16);
    form!(f, movswl, "movswl", Gpr32, Memory);
    form!(f, movswq, "movswq", Gpr64, Gpr16);
    form!(f, movswq, "movswq", Gpr64, Memory);
    form!(f, movupd, "movupd", Xmm, Xmm);
    form!(f, movupd, "movupd", Xmm, Memory);
    form!(f, movupd, "movupd", Memory, Xmm);
    form!(f, movups, "movups", Xmm, Xmm);
    form!(f, movups, "movups", Xmm, Memory);
    form!(f, movups, "movups", Memory, Xmm);
    form!(f, movw, "movw", Gpr16, i16);
    form!(f, movw, "movw", Gpr16, Gpr16);
    form!(f, movw, "movw", Gpr16, Memory);
    form!(f, movw, "movw", Memory, Gpr16);
    form!(f, movw, "movw", Memory, i16);
    form!(f, movzbl, "movzbl", Gpr32, Gpr8);
    form!(f, movzbl, "movzbl", Gpr32, Memory);
    form!(f, movzbq, "movzbq", Gpr64, Gpr8);
    form!(f, movzbq, "movzbq", Gpr64, Memory);
    form!(f, movzbw, "movzbw", Gpr16, Gpr8);
    form!(f, movzbw, "movzbw", Gpr16, Memory);
    form!(f, movzwl, "movzwl", Gpr32, Gpr16);
    form!(f, movzwl, "movzwl", Gpr32, Memory);
    form!(f, movzwq, "movzwq", Gpr64, Gpr16);
    form!(f, movzwq, "movzwq", Gpr64, Memory);
    form!(f, mpsadbw, "mpsadbw", Xmm, Xmm, i8);
    form!(f, mpsadbw, "mpsadbw", Xmm, Memory, i8);
    form!(f, mulb, "mulb", Gpr8);
    form!(f, mulb, "mulb", Memory);
    form!(f, mull, "mull", Gpr32);
    form!(f, mull, "mull", Memory);
    form!(f, mulpd, "mulpd", Xmm, Xmm);
    form!(f, mulpd, "mulpd", Xmm, Memory);
    form!(f, mulps, "mulps", Xmm, Xmm);
    form!(f, mulps, "mulps", Xmm, Memory);
    form!(f, mulq, "mulq", Gpr64);
    form!(f, mulq, "mulq", Memory);
    form!(f, mulsd, "mulsd", Xmm, Xmm);
    form!(f, mulsd, "mulsd", Xmm, Memory);
    form!(f, mulss, "mulss", Xmm, Xmm);
    form!(f, mulss, "mulss", Xmm, Memory);
    form!(f, mulw, "mulw", Gpr16);
    form!(f, mulw, "mulw", Memory);
    form!(f, negb, "negb", Gpr8);
    form!(f, negb, "negb", Memory);
    form!(f, negl, "negl", Gpr32);
    form!(f, negl, "negl", Memory);
    form!(f, negq, "negq", Gpr64);
    form!(f, negq, "negq", Memory);
    form!(f, negw, "negw", Gpr16);
    form!(f, negw, "negw", Memory);
}

fn part6(f: &mut F) {
    form!(f, nop, "nop");
    form!(f, notb, "notb", Gpr8);
    form!(f, notb, "notb", Memory);
    form!(f, notl, "notl", Gpr32);
    form!(f, notl, "notl", Memory);
    form!(f, notq, "notq", Gpr64);
    form!(f, notq, "notq", Memory);
    form!(f, notw, "notw", Gpr16);
    form!(f, notw, "notw", Memory);
    form!(f, orb, "orb", Gpr8, Gpr8);
    form!(f, orb, "orb", Gpr8, Memory);
    form!(f, orb, "orb", Memory, Gpr8);
    form!(f, orb, "orb", Gpr8, i8);
    form!(f, orb, "orb", Memory, i8);
    form!(f, orb, "orb", _Al, i8);
    form!(f, orl, "orl", Gpr32, Gpr32);
    form!(f, orl, "orl", Gpr32, Memory);
    form!(f, orl, "orl", Memory, Gpr32);
    form!(f, orl, "orl", Gpr32, i8);
    form!(f, orl, "orl", Memory, i8);
    form!(f, orl, "orl", Gpr32, i32);
    form!(f, orl, "orl", Memory, i32);
    form!(f, orl, "orl", _Eax, i32);
    form!(f, orpd, "orpd", Xmm, Xmm);
    form!(f, orpd, "orpd", Xmm, Memory);
    form!(f, orps, "orps", Xmm, Xmm);
    form!(f, orps, "orps", Xmm, Memory);
    form!(f, orq, "orq", Gpr64, Gpr64);
    form!(f, orq, "orq", Gpr64, Memory);
    form!(f, orq, "orq", Memory, Gpr64);
    form!(f, orq, "orq", Gpr64, i8);
    form!(f, orq, "orq", Memory, i8);
    form!(f, orq, "orq", Gpr64, i32);
    form!(f, orq, "orq", Memory, i32);
    form!(f, orq, "orq", _Rax, i32);
    form!(f, orw, "orw", Gpr16, Gpr16);
    form!(f, orw, "orw", Gpr16, Memory);
    form!(f, orw, "orw", Memory, Gpr16);
    form!(f, orw, "orw", Gpr16, i8);
    form!(f, orw, "orw", Memory, i8);
    form!(f, orw, "orw", Gpr16, i16);
    form!(f, orw, "orw", Memory, i16);
    form!(f, orw, "orw", _Ax, i16);
    form!(f, outb, "outb", i8, _Al);
    form!(f, outb, "outb", _Dx, _Al);
    form!(f, outl, "outl", i8, _Eax);
    form!(f, outl, "outl", _Dx, _Eax);
    form!(f, outw, "outw", i8, _Ax);
    form!(f, outw, "outw", _Dx, _Ax);
    form!(f, packssdw, "packssdw", Xmm, Xmm);
    form!(f, packssdw, "packssdw", Xmm, Memory);
    form!(f, packsswb, "packsswb", Xmm, Xmm);
    form!(f, packsswb, "packsswb", Xmm, Memory);
    form!(f, packusdw, "packusdw", Xmm, Xmm);
    form!(f, packusdw, "packusdw", Xmm, Memory);
    form!(f, packuswb, "packuswb", Xmm, Xmm);
    form!(f, packuswb, "packuswb", Xmm, Memory);
    form!(f, paddb, "paddb", Xmm, Xmm);
    form!(f, paddb, "paddb", Xmm, Memory);
    form!(f, paddd, "paddd", Xmm, Xmm);
    form!(f, paddd, "paddd", Xmm, Memory);
    form!(f, paddq, "paddq", Xmm, Xmm);
    form!(f, paddq, "paddq", Xmm, Memory);
    form!(f, paddsb, "paddsb", Xmm, Xmm);
    form!(f, paddsb, "paddsb", Xmm, Memory);
    form!(f, paddsw, "paddsw", Xmm, Xmm);
    form!(f, paddsw, "paddsw", Xmm, Memory);
    form!(f, paddusb, "paddusb", Xmm, Xmm);
    form!(f, paddusb, "paddusb", Xmm, Memory);
    form!(f, paddusw, "paddusw", Xmm, Xmm);
    form!(f, paddusw, "paddusw", Xmm, Memory);
    form!(f, paddw, "paddw", Xmm, Xmm);
    form!(f, paddw, "paddw", Xmm, Memory);
    form!(f, pand, "pand", Xmm, Xmm);
    form!(f, pand, "pand", Xmm, Memory);
    form!(f, pandn, "pandn", Xmm, Xmm);
    form!(f, pandn, "pandn", Xmm, Memory);
    form!(f, pause, "pause");
    form!(f, pavgb, "pavgb", Xmm, Xmm);
    form!(f, pavgb, "pavgb", Xmm, Memory);
    form!(f, pavgw, "pavgw", Xmm, Xmm);
    form!(f, pavgw, "pavgw", Xmm, Memory);
    form!(f, pblendvb, "pblendvb", Xmm, Xmm, _Xmm0);
    form!(f, pblendvb, "pblendvb", Xmm, Memory, _Xmm0);
    form!(f, pblendw, "pblendw", Xmm, Xmm, i8);
    form!(f, pblendw, "pblendw", Xmm, Memory, i8);
    form!(f, pcmpeqb, "pcmpeqb", Xmm, Xmm);
    form!(f, pcmpeqb, "pcmpeqb", Xmm, Memory);
    form!(f, pcmpeqd, "pcmpeqd", Xmm, Xmm);
    form!(f, pcmpeqd, "pcmpeqd", Xmm, Memory);
    form!(f, pcmpeqq, "pcmpeqq", Xmm, Xmm);
    form!(f, pcmpeqq, "pcmpeqq", Xmm, Memory);
    form!(f, pcmpeqw, "pcmpeqw", Xmm, Xmm);
    form!(f, pcmpeqw, "pcmpeqw", Xmm, Memory);
    form!(f, pcmpestri, "pcmpestri", Xmm, Xmm, i8);
    form!(f, pcmpestri, "pcmpestri", Xmm, Memory, i8);
    form!(f, pcmpestrm, "pcmpestrm", Xmm, Xmm, i8);
    form!(f, pcmpestrm, "pcmpestrm", Xmm, Memory, i8);
    form!(f, pcmpgtb, "pcmpgtb", Xmm, Xmm);
    form!(f, pcmpgtb, "pcmpgtb", Xmm, Memory);
}

fn part7(f: &mut F) {
    form!(f, pcmpgtd, "pcmpgtd", Xmm, Xmm);
    form!(f, pcmpgtd, "pcmpgtd", Xmm, Memory);
    form!(f, pcmpgtq, "pcmpgtq", Xmm, Xmm);
    form!(f, pcmpgtq, "pcmpgtq", Xmm, Memory);
    form!(f, pcmpgtw, "pcmpgtw", Xmm, Xmm);
    form!(f, pcmpgtw, "pcmpgtw", Xmm, Memory);
    form!(f, pcmpistri, "pcmpistri", Xmm, Xmm, i8);
    form!(f, pcmpistri, "pcmpistri", Xmm, Memory, i8);
    form!(f, pcmpistrm, "pcmpistrm", Xmm, Xmm, i8);
    form!(f, pcmpistrm, "pcmpistrm", Xmm, Memory, i8);
    form!(f, pextrb, "pextrb", Gpr64, Xmm, i8);
    form!(f, pextrb, "pextrb", Memory, Xmm, i8);
    form!(f, pextrd, "pextrd", Gpr32, Xmm, i8);
    form!(f, pextrd, "pextrd", Memory, Xmm, i8);
    form!(f, pextrq, "pextrq", Gpr64, Xmm, i8);
    form!(f, pextrq, "pextrq", Memory, Xmm, i8);
    form!(f, pextrw, "pextrw", Gpr64, Xmm, i8);
    form!(f, pextrw, "pextrw", Memory, Xmm, i8);
    form!(f, phminposuw, "phminposuw", Xmm, Xmm);
    form!(f, phminposuw, "phminposuw", Xmm, Memory);
    form!(f, pinsrb, "pinsrb", Xmm, Gpr32, i8);
    form!(f, pinsrb, "pinsrb", Xmm, Memory, i8);
    form!(f, pinsrd, "pinsrd", Xmm, Gpr32, i8);
    form!(f, pinsrd, "pinsrd", Xmm, Memory, i8);
    form!(f, pinsrw, "pinsrw", Xmm, Gpr32, i8);
    form!(f, pinsrw, "pinsrw", Xmm, Memory, i8);
    form!(f, pmaddwd, "pmaddwd", Xmm, Xmm);
    form!(f, pmaddwd, "pmaddwd", Xmm, Memory);
    form!(f, pmaxsb, "pmaxsb", Xmm, Xmm);
    form!(f, pmaxsb, "pmaxsb", Xmm, Memory);
    form!(f, pmaxsd, "pmaxsd", Xmm, Xmm);
    form!(f, pmaxsd, "pmaxsd", Xmm, Memory);
    form!(f, pmaxsw, "pmaxsw", Xmm, Xmm);
    form!(f, pmaxsw, "pmaxsw", Xmm, Memory);
    form!(f, pmaxub, "pmaxub", Xmm, Xmm);
    form!(f, pmaxub, "pmaxub", Xmm, Memory);
    form!(f, pmaxud, "pmaxud", Xmm, Xmm);
    form!(f, pmaxud, "pmaxud", Xmm, Memory);
    form!(f, pmaxuw, "pmaxuw", Xmm, Xmm);
    form!(f, pmaxuw, "pmaxuw", Xmm, Memory);
    form!(f, pminsb, "pminsb", Xmm, Xmm);
    form!(f, pminsb, "pminsb", Xmm, Memory);
    form!(f, pminsd, "pminsd", Xmm, Xmm);
    form!(f, pminsd, "pminsd", Xmm, Memory);
    form!(f, pminsw, "pminsw", Xmm, Xmm);
    form!(f, pminsw, "pminsw", Xmm, Memory);
    form!(f, pminub, "pminub", Xmm, Xmm);
    form!(f, pminub, "pminub", Xmm, Memory);
    form!(f, pminud, "pminud", Xmm, Xmm);
    form!(f, pminud, "pminud", Xmm, Memory);
    form!(f, pminuw, "pminuw", Xmm, Xmm);
    form!(f, pminuw, "pminuw", Xmm, Memory);
    form!(f, pmovmskb, "pmovmskb", Gpr64, Xmm);
    form!(f, pmovsxbd, "pmovsxbd", Xmm, Xmm);
    form!(f, pmovsxbd, "pmovsxbd", Xmm, Memory);
    form!(f, pmovsxbq, "pmovsxbq", Xmm, Xmm);
    form!(f, pmovsxbq, "pmovsxbq", Xmm, Memory);
    form!(f, pmovsxbw, "pmovsxbw", Xmm, Xmm);
    form!(f, pmovsxbw, "pmovsxbw", Xmm, Memory);
    form!(f, pmovsxdq, "pmovsxdq", Xmm, Xmm);
    form!(f, pmovsxdq, "pmovsxdq", Xmm, Memory);
    form!(f, pmovsxwd, "pmovsxwd", Xmm, Xmm);
    form!(f, pmovsxwd, "pmovsxwd", Xmm, Memory);
    form!(f, pmovsxwq, "pmovsxwq", Xmm, Xmm);
    form!(f, pmovsxwq, "pmovsxwq", Xmm, Memory);
    form!(f, pmovzxbd, "pmovzxbd", Xmm, Xmm);
    form!(f, pmovzxbd, "pmovzxbd", Xmm, Memory);
    form!(f, pmovzxbq, "pmovzxbq", Xmm, Xmm);
    form!(f, pmovzxbq, "pmovzxbq", Xmm, Memory);
    form!(f, pmovzxbw, "pmovzxbw", Xmm, Xmm);
    form!(f, pmovzxbw, "pmovzxbw", Xmm, Memory);
    form!(f, pmovzxdq, "pmovzxdq", Xmm, Xmm);
    form!(f, pmovzxdq, "pmovzxdq", Xmm, Memory);
    form!(f, pmovzxwd, "pmovzxwd", Xmm, Xmm);
    form!(f, pmovzxwd, "pmovzxwd", Xmm, Memory);
    form!(f, pmovzxwq, "pmovzxwq", Xmm, Xmm);
    form!(f, pmovzxwq, "pmovzxwq", Xmm, Memory);
    form!(f, pmuldq, "pmuldq", Xmm, Xmm);
    form!(f, pmuldq, "pmuldq", Xmm, Memory);
    form!(f, pmulhuw, "pmulhuw", Xmm, Xmm);
    form!(f, pmulhuw, "pmulhuw", Xmm, Memory);
    form!(f, pmulhw, "pmulhw", Xmm, Xmm);
    form!(f, pmulhw, "pmulhw", Xmm, Memory);
    form!(f, pmulld, "pmulld", Xmm, Xmm);
    form!(f, pmulld, "pmulld", Xmm, Memory);
    form!(f, pmullw, "pmullw", Xmm, Xmm);
    form!(f, pmullw, "pmullw", Xmm, Memory);
    form!(f, pmuludq, "pmuludq", Xmm, Xmm);
    form!(f, pmuludq, "pmuludq", Xmm, Memory);
    form!(f, popcntl, "popcntl", Gpr32, Gpr32);
    form!(f, popcntl, "popcntl", Gpr32, Memory);
    form!(f, popcntq, "popcntq", Gpr64, Gpr64);
    form!(f, popcntq, "popcntq", Gpr64, Memory);
    form!(f, popcntw, "popcntw", Gpr16, Gpr16);
    form!(f, popcntw, "popcntw", Gpr16, Memory);
    form!(f, popfq, "popfq");
    form!(f, popfw, "popfw");
    form!(f, popq, "popq", Gpr64);
    form!(f, popq, "popq", Memory);
    form!(f, popw, "popw", Gpr16);
}

fn part8(f: &mut F) {
    form!(f, popw, "popw", Memory);
    form!(f, por, "por", Xmm, Xmm);
    form!(f, por, "por", Xmm, Memory);
    form!(f, psadbw, "psadbw", Xmm, Xmm);
    form!(f, psadbw, "psadbw", Xmm, Memory);
    form!(f, pshufd, "pshufd", Xmm, Xmm, i8);
    form!(f, pshufd, "pshufd", Xmm, Memory, i8);
    form!(f, pshufhw, "pshufhw", Xmm, Xmm, i8);
    form!(f, pshufhw, "pshufhw", Xmm, Memory, i8);
    form!(f, pshuflw, "pshuflw", Xmm, Xmm, i8);
    form!(f, pshuflw, "pshuflw", Xmm, Memory, i8);
    form!(f, pslld, "pslld", Xmm, i8);
    form!(f, pslld, "pslld", Xmm, Xmm);
    form!(f, pslld, "pslld", Xmm, Memory);
    form!(f, pslldq, "pslldq", Xmm, i8);
    form!(f, psllq, "psllq", Xmm, i8);
    form!(f, psllq, "psllq", Xmm, Xmm);
    form!(f, psllq, "psllq", Xmm, Memory);
    form!(f, psllw, "psllw", Xmm, i8);
    form!(f, psllw, "psllw", Xmm, Xmm);
    form!(f, psllw, "psllw", Xmm, Memory);
    form!(f, psrad, "psrad", Xmm, i8);
    form!(f, psrad, "psrad", Xmm, Xmm);
    form!(f, psrad, "psrad", Xmm, Memory);
    form!(f, psraw, "psraw", Xmm, i8);
    form!(f, psraw, "psraw", Xmm, Xmm);
    form!(f, psraw, "psraw", Xmm, Memory);
    form!(f, psrld, "psrld", Xmm, i8);
    form!(f, psrld, "psrld", Xmm, Xmm);
    form!(f, psrld, "psrld", Xmm, Memory);
    form!(f, psrldq, "psrldq", Xmm, i8);
    form!(f, psrlq, "psrlq", Xmm, i8);
    form!(f, psrlq, "psrlq", Xmm, Xmm);
    form!(f, psrlq, "psrlq", Xmm, Memory);
    form!(f, psrlw, "psrlw", Xmm, i8);
    form!(f, psrlw, "psrlw", Xmm, Xmm);
    form!(f, psrlw, "psrlw", Xmm, Memory);
    form!(f, psubb, "psubb", Xmm, Xmm);
    form!(f, psubb, "psubb", Xmm, Memory);
    form!(f, psubd, "psubd", Xmm, Xmm);
    form!(f, psubd, "psubd", Xmm, Memory);
    form!(f, psubq, "psubq", Xmm, Xmm);
    form!(f, psubq, "psubq", Xmm, Memory);
    form!(f, psubsb, "psubsb", Xmm, Xmm);
    form!(f, psubsb, "psubsb", Xmm, Memory);
    form!(f, psubsw, "psubsw", Xmm, Xmm);
    form!(f, psubsw, "psubsw", Xmm, Memory);
    form!(f, psubusb, "psubusb", Xmm, Xmm);
    form!(f, psubusb, "psubusb", Xmm, Memory);
    form!(f, psubusw, "psubusw", Xmm, Xmm);
    form!(f, psubusw, "psubusw", Xmm, Memory);
    form!(f, psubw, "psubw", Xmm, Xmm);
    form!(f, psubw, "psubw", Xmm, Memory);
    form!(f, ptest, "ptest", Xmm, Xmm);
    form!(f, ptest, "ptest", Xmm, Memory);
    form!(f, punpckhbw, "punpckhbw", Xmm, Xmm);
    form!(f, punpckhbw, "punpckhbw", Xmm, Memory);
    form!(f, punpckhdq, "punpckhdq", Xmm, Xmm);
    form!(f, punpckhdq, "punpckhdq", Xmm, Memory);
    form!(f, punpckhqdq, "punpckhqdq", Xmm, Xmm);
    form!(f, punpckhqdq, "punpckhqdq", Xmm, Memory);
    form!(f, punpckhwd, "punpckhwd", Xmm, Xmm);
    form!(f, punpckhwd, "punpckhwd", Xmm, Memory);
    form!(f, punpcklbw, "punpcklbw", Xmm, Xmm);
    form!(f, punpcklbw, "punpcklbw", Xmm, Memory);
    form!(f, punpckldq, "punpckldq", Xmm, Xmm);
    form!(f, punpckldq, "punpckldq", Xmm, Memory);
    form!(f, punpcklqdq, "punpcklqdq", Xmm, Xmm);
    form!(f, punpcklqdq, "punpcklqdq", Xmm, Memory);
    form!(f, punpcklwd, "punpcklwd", Xmm, Xmm);
    form!(f, punpcklwd, "punpcklwd", Xmm, Memory);
    form!(f, pushfq, "pushfq");
    form!(f, pushfw, "pushfw");
    form!(f, pushq, "pushq", Gpr64);
    form!(f, pushq, "pushq", i8);
    form!(f, pushq, "pushq", i32);
    form!(f, pushq, "pushq", Memory);
    form!(f, pushw, "pushw", Gpr16);
    form!(f, pushw, "pushw", i16);
    form!(f, pushw, "pushw", Memory);
    form!(f, pxor, "pxor", Xmm, Xmm);
    form!(f, pxor, "pxor", Xmm, Memory);
    form!(f, rclb, "rclb", Gpr8, i8);
    form!(f, rclb, "rclb", Memory, i8);
    form!(f, rclb, "rclb", Gpr8, _1);
    form!(f, rclb, "rclb", Memory, _1);
    form!(f, rclb, "rclb", Gpr8, _Cl);
    form!(f, rclb, "rclb", Memory, _Cl);
    form!(f, rcll, "rcll", Gpr32, i8);
    form!(f, rcll, "rcll", Memory, i8);
    form!(f, rcll, "rcll", Gpr32, _1);
    form!(f, rcll, "rcll", Memory, _1);
    form!(f, rcll, "rcll", Gpr32, _Cl);
    form!(f, rcll, "rcll", Memory, _Cl);
    form!(f, rclq, "rclq", Gpr64, i8);
    form!(f, rclq, "rclq", Memory, i8);
    form!(f, rclq, "rclq", Gpr64, _1);
    form!(f, rclq, "rclq", Memory, _1);
    form!(f, rclq, "rclq", Gpr64, _Cl);
    form!(f, rclq, "rclq", Memory, _Cl);
}

fn part9(f: &mut F) {
    form!(f, rclw, "rclw", Gpr16, i8);
    form!(f, rclw, "rclw", Memory, i8);
    form!(f, rclw, "rclw", Gpr16, _1);
    form!(f, rclw, "rclw", Memory, _1);
    form!(f, rclw, "rclw", Gpr16, _Cl);
    form!(f, rclw, "rclw", Memory, _Cl);
    form!(f, rcpps, "rcpps", Xmm, Xmm);
    form!(f, rcpps, "rcpps", Xmm, Memory);
    form!(f, rcpss, "rcpss", Xmm, Xmm);
    form!(f, rcpss, "rcpss", Xmm, Memory);
    form!(f, rcrb, "rcrb", Gpr8, i8);
    form!(f, rcrb, "rcrb", Memory, i8);
    form!(f, rcrb, "rcrb", Gpr8, _1);
    form!(f, rcrb, "rcrb", Memory, _1);
    form!(f, rcrb, "rcrb", Gpr8, _Cl);
    form!(f, rcrb, "rcrb", Memory, _Cl);
    form!(f, rcrl, "rcrl", Gpr32, i8);
    form!(f, rcrl, "rcrl", Memory, i8);
    form!(f, rcrl, "rcrl", Gpr32, _1);
    form!(f, rcrl, "rcrl", Memory, _1);
    form!(f, rcrl, "rcrl", Gpr32, _Cl);
    form!(f, rcrl, "rcrl", Memory, _Cl);
    form!(f, rcrq, "rcrq", Gpr64, i8);
    form!(f, rcrq, "rcrq", Memory, i8);
    form!(f, rcrq, "rcrq", Gpr64, _1);
    form!(f, rcrq, "rcrq", Memory, _1);
    form!(f, rcrq, "rcrq", Gpr64, _Cl);
    form!(f, rcrq, "rcrq", Memory, _Cl);
    form!(f, rcrw, "rcrw", Gpr16, i8);
    form!(f, rcrw, "rcrw", Memory, i8);
    form!(f, rcrw, "rcrw", Gpr16, _1);
    form!(f, rcrw, "rcrw", Memory, _1);
    form!(f, rcrw, "rcrw", Gpr16, _Cl);
    form!(f, rcrw, "rcrw", Memory, _Cl);
    form!(f, retq, "retq");
    form!(f, retq1, "retq1", i16);
    form!(f, rolb, "rolb", Gpr8, i8);
    form!(f, rolb, "rolb", Memory, i8);
    form!(f, rolb, "rolb", Gpr8, _1);
    form!(f, rolb, "rolb", Memory, _1);
    form!(f, rolb, "rolb", Gpr8, _Cl);
    form!(f, rolb, "rolb", Memory, _Cl);
    form!(f, roll, "roll", Gpr32, i8);
    form!(f, roll, "roll", Memory, i8);
    form!(f, roll, "roll", Gpr32, _1);
    form!(f, roll, "roll", Memory, _1);
    form!(f, roll, "roll", Gpr32, _Cl);
    form!(f, roll, "roll", Memory, _Cl);
    form!(f, rolq, "rolq", Gpr64, i8);
    form!(f, rolq, "rolq", Memory, i8);
    form!(f, rolq, "rolq", Gpr64, _1);
    form!(f, rolq, "rolq", Memory, _1);
    form!(f, rolq, "rolq", Gpr64, _Cl);
    form!(f, rolq, "rolq", Memory, _Cl);
    form!(f, rolw, "rolw", Gpr16, i8);
    form!(f, rolw, "rolw", Memory, i8);
    form!(f, rolw, "rolw", Gpr16, _1);
    form!(f, rolw, "rolw", Memory, _1);
    form!(f, rolw, "rolw", Gpr16, _Cl);
    form!(f, rolw, "rolw", Memory, _Cl);
    form!(f, rorb, "rorb", Gpr8, i8);
    form!(f, rorb, "rorb", Memory, i8);
    form!(f, rorb, "rorb", Gpr8, _1);
    form!(f, rorb, "rorb", Memory, _1);
    form!(f, rorb, "rorb", Gpr8, _Cl);
    form!(f, rorb, "rorb", Memory, _Cl);
    form!(f, rorl, "rorl", Gpr32, i8);
    form!(f, rorl, "rorl", Memory, i8);
    form!(f, rorl, "rorl", Gpr32, _1);
    form!(f, rorl, "rorl", Memory, _1);
    form!(f, rorl, "rorl", Gpr32, _Cl);
    form!(f, rorl, "rorl", Memory, _Cl);
    form!(f, rorq, "rorq", Gpr64, i8);
    form!(f, rorq, "rorq", Memory, i8);
    form!(f, rorq, "rorq", Gpr64, _1);
    form!(f, rorq, "rorq", Memory, _1);
    form!(f, rorq, "rorq", Gpr64, _Cl);
    form!(f, rorq, "rorq", Memory, _Cl);
    form!(f, rorw, "rorw", Gpr16, i8);
    form!(f, rorw, "rorw", Memory, i8);
    form!(f, rorw, "rorw", Gpr16, _1);
    form!(f, rorw, "rorw", Memory, _1);
    form!(f, rorw, "rorw", Gpr16, _Cl);
    form!(f, rorw, "rorw", Memory, _Cl);
    form!(f, roundpd, "roundpd", Xmm, Xmm, i8);
    form!(f, roundpd, "roundpd", Xmm, Memory, i8);
    form!(f, roundps, "roundps", Xmm, Xmm, i8);
    form!(f, roundps, "roundps", Xmm, Memory, i8);
    form!(f, roundsd, "roundsd", Xmm, Xmm, i8);
    form!(f, roundsd, "roundsd", Xmm, Memory, i8);
    form!(f, roundss, "roundss", Xmm, Xmm, i8);
    form!(f, roundss, "roundss", Xmm, Memory, i8);
    form!(f, rsqrtps, "rsqrtps", Xmm, Xmm);
    form!(f, rsqrtps, "rsqrtps", Xmm, Memory);
    form!(f, rsqrtss, "rsqrtss", Xmm, Xmm);
    form!(f, rsqrtss, "rsqrtss", Xmm, Memory);
    form!(f, salb, "salb", Gpr8, i8);
    form!(f, salb, "salb", Memory, i8);
    form!(f, salb, "salb", Gpr8, _1);
    form!(f, salb, "salb", Memory, _1);
}

fn part10(f: &mut F) {
    form!(f, salb, "salb", Gpr8, _Cl);
    form!(f, salb, "salb", Memory, _Cl);
    form!(f, sall, "sall", Gpr32, i8);
    form!(f, sall, "sall", Memory, i8);
    form!(f, sall, "sall", Gpr32, _1);
    form!(f, sall, "sall", Memory, _1);
    form!(f, sall, "sall", Gpr32, _Cl);
    form!(f, sall, "sall", Memory, _Cl);
    form!(f, salq, "salq", Gpr64, i8);
    form!(f, salq, "salq", Memory, i8);
    form!(f, salq, "salq", Gpr64, _1);
    form!(f, salq, "salq", Memory, _1);
    form!(f, salq, "salq", Gpr64, _Cl);
    form!(f, salq, "salq", Memory, _Cl);
    form!(f, salw, "salw", Gpr16, i8);
    form!(f, salw, "salw", Memory, i8);
    form!(f, salw, "salw", Gpr16, _1);
    form!(f, salw, "salw", Memory, _1);
    form!(f, salw, "salw", Gpr16, _Cl);
    form!(f, salw, "salw", Memory, _Cl);
    form!(f, sarb, "sarb", Gpr8, i8);
    form!(f, sarb, "sarb", Memory, i8);
    form!(f, sarb, "sarb", Gpr8, _1);
    form!(f, sarb, "sarb", Memory, _1);
    form!(f, sarb, "sarb", Gpr8, _Cl);
    form!(f, sarb, "sarb", Memory, _Cl);
    form!(f, sarl, "sarl", Gpr32, i8);
    form!(f, sarl, "sarl", Memory, i8);
    form!(f, sarl, "sarl", Gpr32, _1);
    form!(f, sarl, "sarl", Memory, _1);
    form!(f, sarl, "sarl", Gpr32, _Cl);
    form!(f, sarl, "sarl", Memory, _Cl);
    form!(f, sarq, "sarq", Gpr64, i8);
    form!(f, sarq, "sarq", Memory, i8);
    form!(f, sarq, "sarq", Gpr64, _1);
    form!(f, sarq, "sarq", Memory, _1);
    form!(f, sarq, "sarq", Gpr64, _Cl);
    form!(f, sarq, "sarq", Memory, _Cl);
    form!(f, sarw, "sarw", Gpr16, i8);
    form!(f, sarw, "sarw", Memory, i8);
    form!(f, sarw, "sarw", Gpr16, _1);
    form!(f, sarw, "sarw", Memory, _1);
    form!(f, sarw, "sarw", Gpr16, _Cl);
    form!(f, sarw, "sarw", Memory, _Cl);
    form!(f, sbbb, "sbbb", Gpr8, Gpr8);
    form!(f, sbbb, "sbbb", Gpr8, Memory);
    form!(f, sbbb, "sbbb", Memory, Gpr8);
    form!(f, sbbb, "sbbb", Gpr8, i8);
    form!(f, sbbb, "sbbb", Memory, i8);
    form!(f, sbbb, "sbbb", _Al, i8);
    form!(f, sbbl, "sbbl", Gpr32, Gpr32);
    form!(f, sbbl, "sbbl", Gpr32, Memory);
    form!(f, sbbl, "sbbl", Memory, Gpr32);
    form!(f, sbbl, "sbbl", Gpr32, i8);
    form!(f, sbbl, "sbbl", Memory, i8);
    form!(f, sbbl, "sbbl", Gpr32, i32);
    form!(f, sbbl, "sbbl", Memory, i32);
    form!(f, sbbl, "sbbl", _Eax, i32);
    form!(f, sbbq, "sbbq", Gpr64, Gpr64);
    form!(f, sbbq, "sbbq", Gpr64, Memory);
    form!(f, sbbq, "sbbq", Memory, Gpr64);
    form!(f, sbbq, "sbbq", Gpr64, i8);
    form!(f, sbbq, "sbbq", Memory, i8);
    form!(f, sbbq, "sbbq", Gpr64, i32);
    form!(f, sbbq, "sbbq", Memory, i32);
    form!(f, sbbq, "sbbq", _Rax, i32);
    form!(f, sbbw, "sbbw", Gpr16, Gpr16);
    form!(f, sbbw, "sbbw", Gpr16, Memory);
    form!(f, sbbw, "sbbw", Memory, Gpr16);
    form!(f, sbbw, "sbbw", Gpr16, i8);
    form!(f, sbbw, "sbbw", Memory, i8);
    form!(f, sbbw, "sbbw", Gpr16, i16);
    form!(f, sbbw, "sbbw", Memory, i16);
    form!(f, sbbw, "sbbw", _Ax, i16);
    form!(f, seta, "seta", Gpr8);
    form!(f, seta, "seta", Memory);
    form!(f, setae, "setae", Gpr8);
    form!(f, setae, "setae", Memory);
    form!(f, setb, "setb", Gpr8);
    form!(f, setb, "setb", Memory);
    form!(f, setbe, "setbe", Gpr8);
    form!(f, setbe, "setbe", Memory);
    form!(f, setc, "setc", Gpr8);
    form!(f, setc, "setc", Memory);
    form!(f, sete, "sete", Gpr8);
    form!(f, sete, "sete", Memory);
    form!(f, setg, "setg", Gpr8);
    form!(f, setg, "setg", Memory);
    form!(f, setge, "setge", Gpr8);
    form!(f, setge, "setge", Memory);
    form!(f, setl, "setl", Gpr8);
    form!(f, setl, "setl", Memory);
    form!(f, setle, "setle", Gpr8);
    form!(f, setle, "setle", Memory);
    form!(f, setna, "setna", Gpr8);
    form!(f, setna, "setna", Memory);
    form!(f, setnae, "setnae", Gpr8);
    form!(f, setnae, "setnae", Memory);
    form!(f, setnb, "setnb", Gpr8);
    form!(f, setnb, "setnb", Memory);
}

fn part11(f: &mut F) {
    form!(f, setnbe, "setnbe", Gpr8);
    form!(f, setnbe, "setnbe", Memory);
    form!(f, setnc, "setnc", Gpr8);
    form!(f, setnc, "setnc", Memory);
    form!(f, setne, "setne", Gpr8);
    form!(f, setne, "setne", Memory);
    form!(f, setng, "setng", Gpr8);
    form!(f, setng, "setng", Memory);
    form!(f, setnge, "setnge", Gpr8);
    form!(f, setnge, "setnge", Memory);
    form!(f, setnl, "setnl", Gpr8);
    form!(f, setnl, "setnl", Memory);
    form!(f, setnle, "setnle", Gpr8);
    form!(f, setnle, "setnle", Memory);
    form!(f, setno, "setno", Gpr8);
    form!(f, setno, "setno", Memory);
    form!(f, setnp, "setnp", Gpr8);
    form!(f, setnp, "setnp", Memory);
    form!(f, setns, "setns", Gpr8);
    form!(f, setns, "setns", Memory);
    form!(f, setnz, "setnz", Gpr8);
    form!(f, setnz, "setnz", Memory);
    form!(f, seto, "seto", Gpr8);
    form!(f, seto, "seto", Memory);
    form!(f, setp, "setp", Gpr8);
    form!(f, setp, "setp", Memory);
    form!(f, setpe, "setpe", Gpr8);
    form!(f, setpe, "setpe", Memory);
    form!(f, setpo, "setpo", Gpr8);
    form!(f, setpo, "setpo", Memory);
    form!(f, sets, "sets", Gpr8);
    form!(f, sets, "sets", Memory);
    form!(f, setz, "setz", Gpr8);
    form!(f, setz, "setz", Memory);
    form!(f, sfence, "sfence");
    form!(f, sgdt, "sgdt", Memory);
    form!(f, shlb, "shlb", Gpr8, i8);
    form!(f, shlb, "shlb", Memory, i8);
    form!(f, shlb, "shlb", Gpr8, _1);
    form!(f, shlb, "shlb", Memory, _1);
    form!(f, shlb, "shlb", Gpr8, _Cl);
    form!(f, shlb, "shlb", Memory, _Cl);
    form!(f, shldl, "shldl", Gpr32, Gpr32, i8);
    form!(f, shldl, "shldl", Memory, Gpr32, i8);
    form!(f, shldl, "shldl", Gpr32, Gpr32, _Cl);
    form!(f, shldl, "shldl", Memory, Gpr32, _Cl);
    form!(f, shldq, "shldq", Gpr64, Gpr64, i8);
    form!(f, shldq, "shldq", Memory, Gpr64, i8);
    form!(f, shldq, "shldq", Gpr64, Gpr64, _Cl);
    form!(f, shldq, "shldq", Memory, Gpr64, _Cl);
    form!(f, shldw, "shldw", Gpr16, Gpr16, i8);
    form!(f, shldw, "shldw", Memory, Gpr16, i8);
    form!(f, shldw, "shldw", Gpr16, Gpr16, _Cl);
    form!(f, shldw, "shldw", Memory, Gpr16, _Cl);
    form!(f, shll, "shll", Gpr32, i8);
    form!(f, shll, "shll", Memory, i8);
    form!(f, shll, "shll", Gpr32, _1);
    form!(f, shll, "shll", Memory, _1);
    form!(f, shll, "shll", Gpr32, _Cl);
    form!(f, shll, "shll", Memory, _Cl);
    form!(f, shlq, "shlq", Gpr64, i8);
    form!(f, shlq, "shlq", Memory, i8);
    form!(f, shlq, "shlq", Gpr64, _1);
    form!(f, shlq, "shlq", Memory, _1);
    form!(f, shlq, "shlq", Gpr64, _Cl);
    form!(f, shlq, "shlq", Memory, _Cl);
    form!(f, shlw, "shlw", Gpr16, i8);
    form!(f, shlw, "shlw", Memory, i8);
    form!(f, shlw, "shlw", Gpr16, _1);
    form!(f, shlw, "shlw", Memory, _1);
    form!(f, shlw, "shlw", Gpr16, _Cl);
    form!(f, shlw, "shlw", Memory, _Cl);
    form!(f, shrb, "shrb", Gpr8, i8);
    form!(f, shrb, "shrb", Memory, i8);
    form!(f, shrb, "shrb", Gpr8, _1);
    form!(f, shrb, "shrb", Memory, _1);
    form!(f, shrb, "shrb", Gpr8, _Cl);
    form!(f, shrb, "shrb", Memory, _Cl);
    form!(f, shrdl, "shrdl", Gpr32, Gpr32, i8);
    form!(f, shrdl, "shrdl", Memory, Gpr32, i8);
    form!(f, shrdl, "shrdl", Gpr32, Gpr32, _Cl);
    form!(f, shrdl, "shrdl", Memory, Gpr32, _Cl);
    form!(f, shrdq, "shrdq", Gpr64, Gpr64, i8);
    form!(f, shrdq, "shrdq", Memory, Gpr64, i8);
    form!(f, shrdq, "shrdq", Gpr64, Gpr64, _Cl);
    form!(f, shrdq, "shrdq", Memory, Gpr64, _Cl);
    form!(f, shrdw, "shrdw", Gpr16, Gpr16, i8);
    form!(f, shrdw, "shrdw", Memory, Gpr16, i8);
    form!(f, shrdw, "shrdw", Gpr16, Gpr16, _Cl);
    form!(f, shrdw, "shrdw", Memory, Gpr16, _Cl);
    form!(f, shrl, "shrl", Gpr32, i8);
    form!(f, shrl, "shrl", Memory, i8);
    form!(f, shrl, "shrl", Gpr32, _1);
    form!(f, shrl, "shrl", Memory, _1);
    form!(f, shrl, "shrl", Gpr32, _Cl);
    form!(f, shrl, "shrl", Memory, _Cl);
    form!(f, shrq, "shrq", Gpr64, i8);
    form!(f, shrq, "shrq", Memory, i8);
    form!(f, shrq, "shrq", Gpr64, _1);
    form!(f, shrq, "shrq", Memory, _1);
}

fn part12(f: &mut F) {
    form!(f, shrq, "shrq", Gpr64, _Cl);
    form!(f, shrq, "shrq", Memory, _Cl);
    form!(f, shrw, "shrw", Gpr16, i8);
    form!(f, shrw, "shrw", Memory, i8);
    form!(f, shrw, "shrw", Gpr16, _1);
    form!(f, shrw, "shrw", Memory, _1);
    form!(f, shrw, "shrw", Gpr16, _Cl);
    form!(f, shrw, "shrw", Memory, _Cl);
    form!(f, shufpd, "shufpd", Xmm, Xmm, i8);
    form!(f, shufpd, "shufpd", Xmm, Memory, i8);
    form!(f, shufps, "shufps", Xmm, Xmm, i8);
    form!(f, shufps, "shufps", Xmm, Memory, i8);
    form!(f, sidt, "sidt", Memory);
    form!(f, sqrtpd, "sqrtpd", Xmm, Xmm);
    form!(f, sqrtpd, "sqrtpd", Xmm, Memory);
    form!(f, sqrtps, "sqrtps", Xmm, Xmm);
    form!(f, sqrtps, "sqrtps", Xmm, Memory);
    form!(f, sqrtsd, "sqrtsd", Xmm, Xmm);
    form!(f, sqrtsd, "sqrtsd", Xmm, Memory);
    form!(f, sqrtss, "sqrtss", Xmm, Xmm);
    form!(f, sqrtss, "sqrtss", Xmm, Memory);
    form!(f, stc, "stc");
    form!(f, std, "std");
    form!(f, sti, "sti");
    form!(f, stmxcsr, "stmxcsr", Memory);
    form!(f, str, "str", Gpr16);
    form!(f, str, "str", Memory);
    form!(f, subb, "subb", Gpr8, Gpr8);
    form!(f, subb, "subb", Gpr8, Memory);
    form!(f, subb, "subb", Memory, Gpr8);
    form!(f, subb, "subb", Gpr8, i8);
    form!(f, subb, "subb", Memory, i8);
    form!(f, subb, "subb", _Al, i8);
    form!(f, subl, "subl", Gpr32, Gpr32);
    form!(f, subl, "subl", Gpr32, Memory);
    form!(f, subl, "subl", Memory, Gpr32);
    form!(f, subl, "subl", Gpr32, i8);
    form!(f, subl, "subl", Memory, i8);
    form!(f, subl, "subl", Gpr32, i32);
    form!(f, subl, "subl", Memory, i32);
    form!(f, subl, "subl", _Eax, i32);
    form!(f, subpd, "subpd", Xmm, Xmm);
    form!(f, subpd, "subpd", Xmm, Memory);
    form!(f, subps, "subps", Xmm, Xmm);
    form!(f, subps, "subps", Xmm, Memory);
    form!(f, subq, "subq", Gpr64, Gpr64);
    form!(f, subq, "subq", Gpr64, Memory);
    form!(f, subq, "subq", Memory, Gpr64);
    form!(f, subq, "subq", Gpr64, i8);
    form!(f, subq, "subq", Memory, i8);
    form!(f, subq, "subq", Gpr64, i32);
    form!(f, subq, "subq", Memory, i32);
    form!(f, subq, "subq", _Rax, i32);
    form!(f, subsd, "subsd", Xmm, Xmm);
    form!(f, subsd, "subsd", Xmm, Memory);
    form!(f, subss, "subss", Xmm, Xmm);
    form!(f, subss, "subss", Xmm, Memory);
    form!(f, subw, "subw", Gpr16, Gpr16);
    form!(f, subw, "subw", Gpr16, Memory);
    form!(f, subw, "subw", Memory, Gpr16);
    form!(f, subw, "subw", Gpr16, i8);
    form!(f, subw, "subw", Memory, i8);
    form!(f, subw, "subw", Gpr16, i16);
    form!(f, subw, "subw", Memory, i16);
    form!(f, subw, "subw", _Ax, i16);
    form!(f, swapgs, "swapgs");
    form!(f, testb, "testb", Gpr8, Gpr8);
    form!(f, testb, "testb", Memory, Gpr8);
    form!(f, testb, "testb", Gpr8, i8);
    form!(f, testb, "testb", Memory, i8);
    form!(f, testb, "testb", _Al, i8);
    form!(f, testl, "testl", Gpr32, Gpr32);
    form!(f, testl, "testl", Memory, Gpr32);
    form!(f, testl, "testl", Gpr32, i32);
    form!(f, testl, "testl", Memory, i32);
    form!(f, testl, "testl", _Eax, i32);
    form!(f, testq, "testq", Gpr64, Gpr64);
    form!(f, testq, "testq", Memory, Gpr64);
    form!(f, testq, "testq", Gpr64, i32);
    form!(f, testq, "testq", Memory, i32);
    form!(f, testq, "testq", _Rax, i32);
    form!(f, testw, "testw", Gpr16, Gpr16);
    form!(f, testw, "testw", Memory, Gpr16);
    form!(f, testw, "testw", Gpr16, i16);
    form!(f, testw, "testw", Memory, i16);
    form!(f, testw, "testw", _Ax, i16);
    form!(f, ucomisd, "ucomisd", Xmm, Xmm);
    form!(f, ucomisd, "ucomisd", Xmm, Memory);
    form!(f, ucomiss, "ucomiss", Xmm, Xmm);
    form!(f, ucomiss, "ucomiss", Xmm, Memory);
    form!(f, ud2, "ud2");
    form!(f, unpckhpd, "unpckhpd", Xmm, Xmm);
    form!(f, unpckhpd, "unpckhpd", Xmm, Memory);
    form!(f, unpckhps, "unpckhps", Xmm, Xmm);
    form!(f, unpckhps, "unpckhps", Xmm, Memory);
    form!(f, unpcklpd, "unpcklpd", Xmm, Xmm);
    form!(f, unpcklpd, "unpcklpd", Xmm, Memory);
    form!(f, unpcklps, "unpcklps", Xmm, Xmm);
    form!(f, unpcklps, "unpcklps", Xmm, Memory);
    form!(f, verr, "verr", Gpr16);
}

fn part13(f: &mut F) {
    form!(f, verr, "verr", Memory);
    form!(f, verw, "verw", Gpr16);
    form!(f, verw, "verw", Memory);
    form!(f, wbinvd, "wbinvd");
    form!(f, wrmsr, "wrmsr");
    form!(f, xaddb, "xaddb", Gpr8, Gpr8);
    form!(f, xaddb, "xaddb", Memory, Gpr8);
    form!(f, xaddl, "xaddl", Gpr32, Gpr32);
    form!(f, xaddl, "xaddl", Memory, Gpr32);
    form!(f, xaddq, "xaddq", Gpr64, Gpr64);
    form!(f, xaddq, "xaddq", Memory, Gpr64);
    form!(f, xaddw, "xaddw", Gpr16, Gpr16);
    form!(f, xaddw, "xaddw", Memory, Gpr16);
    form!(f, xchgb, "xchgb", Gpr8, Gpr8);
    form!(f, xchgb, "xchgb", Gpr8, Memory);
    form!(f, xchgb, "xchgb", Memory, Gpr8);
    form!(f, xchgl, "xchgl", Gpr32, Gpr32);
    form!(f, xchgl, "xchgl", Gpr32, Memory);
    form!(f, xchgl, "xchgl", Gpr32, _Eax);
    form!(f, xchgl, "xchgl", Memory, Gpr32);
    form!(f, xchgl, "xchgl", _Eax, Gpr32);
    form!(f, xchgq, "xchgq", Gpr64, Gpr64);
    form!(f, xchgq, "xchgq", Gpr64, Memory);
    form!(f, xchgq, "xchgq", Gpr64, _Rax);
    form!(f, xchgq, "xchgq", Memory, Gpr64);
    form!(f, xchgq, "xchgq", _Rax, Gpr64);
    form!(f, xchgw, "xchgw", Gpr16, Gpr16);
    form!(f, xchgw, "xchgw", Gpr16, Memory);
    form!(f, xchgw, "xchgw", Gpr16, _Ax);
    form!(f, xchgw, "xchgw", Memory, Gpr16);
    form!(f, xchgw, "xchgw", _Ax, Gpr16);
    form!(f, xorb, "xorb", Gpr8, Gpr8);
    form!(f, xorb, "xorb", Gpr8, Memory);
    form!(f, xorb, "xorb", Memory, Gpr8);
    form!(f, xorb, "xorb", Gpr8, i8);
    form!(f, xorb, "xorb", Memory, i8);
    form!(f, xorb, "xorb", _Al, i8);
    form!(f, xorl, "xorl", Gpr32, Gpr32);
    form!(f, xorl, "xorl", Gpr32, Memory);
    form!(f, xorl, "xorl", Memory, Gpr32);
    form!(f, xorl, "xorl", Gpr32, i8);
    form!(f, xorl, "xorl", Memory, i8);
    form!(f, xorl, "xorl", Gpr32, i32);
    form!(f, xorl, "xorl", Memory, i32);
    form!(f, xorl, "xorl", _Eax, i32);
    form!(f, xorpd, "xorpd", Xmm, Xmm);
    form!(f, xorpd, "xorpd", Xmm, Memory);
    form!(f, xorps, "xorps", Xmm, Xmm);
    form!(f, xorps, "xorps", Xmm, Memory);
    form!(f, xorq, "xorq", Gpr64, Gpr64);
    form!(f, xorq, "xorq", Gpr64, Memory);
    form!(f, xorq, "xorq", Memory, Gpr64);
    form!(f, xorq, "xorq", Gpr64, i8);
    form!(f, xorq, "xorq", Memory, i8);
    form!(f, xorq, "xorq", Gpr64, i32);
    form!(f, xorq, "xorq", Memory, i32);
    form!(f, xorq, "xorq", _Rax, i32);
    form!(f, xorw, "xorw", Gpr16, Gpr16);
    form!(f, xorw, "xorw", Gpr16, Memory);
    form!(f, xorw, "xorw", Memory, Gpr16);
    form!(f, xorw, "xorw", Gpr16, i8);
    form!(f, xorw, "xorw", Memory, i8);
    form!(f, xorw, "xorw", Gpr16, i16);
    form!(f, xorw, "xorw", Memory, i16);
    form!(f, xorw, "xorw", _Ax, i16);
    form!(f, xsetbv, "xsetbv");
}

pub fn all(f: &mut F) {
    part0(f);
    part1(f);
    part2(f);
    part3(f);
    part4(f);
    part5(f);
    part6(f);
    part7(f);
    part8(f);
    part9(f);
    part10(f);
    part11(f);
    part12(f);
    part13(f);
}
