	.text
	.globl main
	.type main, @function
main:
	pushq %rbp
	movq %rsp, %rbp
	movl $42, %eax
	leaq x(%rip), %rdi
	call foo
	jmp 2f
1:	nop
2:	jnz 1b
	popq %rbp
	ret
	.size main, .-main
	.data
x:	.long 1, 2, x - main
	.quad main + 4
#---
	.data
	.byte 1, 'a', 0x7f, -1
	.word 1234
	.long lab - . + 4
	.quad 0x123456789abcdef0
	.ascii "abc\n\000\x41"
	.asciz "z", "y"
	.align 8
lab:	.skip 5
	.fill 3, 4, 0x11223344
	.space 10, 0xff
	.section .rodata, "a", @progbits
	.string "s"
	.previous
	.bss
	.lcomm q, 4
	.comm r, 8, 8
#---
	.set a, 5
b = a * 3 + (1 << 4) - ~7
	.macro mm p
	movl $\p, %eax
	.endm
	.rept 3
	nop
	.endr
	.if a == 5
	movl $b, %ecx
	.else
	.error "no"
	.endif
	.org 64
	.weak w
	.hidden h
h:	.globl w
w = h
#---
	movb $1, %al
	movw %ax, 2(%rbx)
	movl (%rax,%rcx,4), %edx
	movq %r8, -8(%rsp,%r9)
	movabsq $0x1122334455667788, %r10
	movzbl %al, %eax
	movsbw (%rsi), %cx
	movslq %eax, %rax
	leal 4(%eax), %ecx
	addl $5, %eax
	subq $0x12345, %rsp
	andb %ch, %dl
	xorw $-1, (%rdi)
	cmpl %eax, foo(%rip)
	testb $1, %al
	incl %eax
	decq (%rax)
	notl %ecx
	negq %r15
	imull %ecx, %edx
	imulq $10, %rax, %rbx
	mulb %cl
	divl %esi
	shll $3, %eax
	sarq %cl, %rdx
	rolb $1, (%rax)
	shldl $4, %eax, %ecx
	bsfl %eax, %ecx
	btq $5, %rax
	bswap %eax
	xchgl %eax, %ecx
	lock cmpxchgl %ecx, (%rdx)
	lock; xaddq %rax, (%rbx)
	rep; movsl
	repne scasb
	cld
	std
	cltq
	cqto
	cwtl
	pushfq
	popfq
	leave
	sete %al
	cmovne %eax, %ecx
	int $0x80
	syscall
	cpuid
	rdtsc
	hlt
#---
	flds (%rax)
	fldl 8(%rax)
	fldt (%rsp)
	fstpt (%rsp)
	fld %st(2)
	fxch %st(1)
	faddp
	fmul %st(1), %st
	fildll (%rax)
	fistpll (%rax)
	fchs
	fld1
	fucomip %st(1), %st
	fnstsw %ax
	fnstcw (%rax)
	fldcw (%rax)
	fninit
	movss %xmm0, %xmm1
	movsd (%rax), %xmm2
	movaps %xmm3, (%rsp)
	addsd %xmm1, %xmm0
	cvtsi2sdl %eax, %xmm0
	cvttsd2si %xmm0, %eax
	ucomisd %xmm1, %xmm0
	pxor %xmm0, %xmm0
	movd %eax, %xmm0
	movq %xmm0, %rax
	paddd %xmm1, %xmm2
	sqrtsd %xmm0, %xmm0
	movdqu (%rax), %xmm8
	emms
#---
	.text
0:	jmp 0b
	jmp 1f
	je lab
	jmp *%rax
	jmp *8(%rax)
	call *foo(,%rax,8)
1:	loop 0b
	jrcxz 1b
lab:	call bar@PLT
	movq bar@GOTPCREL(%rip), %rax
	lea lab-0b(%rax), %rcx
	.pushsection .note, "", @note
	.long 1f - 0b
	.popsection
	.section ".init_array", "aw"
	.quad lab
	.file "x.s"
	.ident "id"
	.p2align 4,,15
	.symver bar, bar@V1
	ret $8
	enter $16, $0
#---
#define N 3
#define REG %eax
	.text
#ifdef N
	movl $N, REG /* comment */
#endif
	// line
	movl $(N + 4) * 2, %ecx ; nop ; nop
	.long N, 1 + 2, -N, !N, N < 4, N & 1 | 2 ^ 7
