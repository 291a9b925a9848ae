# Program start for 32-bit x86: there are no 32-bit start files to link with here, only the C library.
.globl _start
.type _start,@function
_start:
 xorl %ebp,%ebp
 popl %esi
 movl %esp,%ecx
 andl $0xfffffff0,%esp
 pushl %eax
 pushl %esp
 pushl %edx
 pushl $0
 pushl $0
 pushl %ecx
 pushl %esi
 call 1f
1: popl %ebx
 addl $_GLOBAL_OFFSET_TABLE_+(.-1b),%ebx
 leal main@GOTOFF(%ebx),%eax
 pushl %eax
 call __libc_start_main@PLT
 hlt
.section .note.GNU-stack,"",@progbits
