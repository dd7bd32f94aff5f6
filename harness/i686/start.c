/* Program entry for 32-bit x86: the C library's own start files are not installed, only the library */
int main(int, char **, char **);
int __libc_start_main(int (*)(int, char **, char **), int, char **, void (*)(void), void (*)(void), void (*)(void), void *);

__attribute__((used, noreturn)) void vp_begin(char **sp, void (*fini)(void)) {
    __libc_start_main(main, *(int *)sp, sp + 1, 0, 0, fini, sp);
    __builtin_unreachable();
}

__asm__(".globl _start\n"
        "_start:\n"
        "    xor %ebp, %ebp\n"
        "    mov %esp, %eax\n"
        "    and $-16, %esp\n"
        "    sub $8, %esp\n"
        "    push %edx\n"
        "    push %eax\n"
        "    call vp_begin\n"
        "    hlt\n");
