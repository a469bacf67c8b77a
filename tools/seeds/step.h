/* Runs code between any two instructions of a call: demo_step(k, f, g) calls f() and, after k of its
 * instructions, g() (or, with k < 0, g() after every instruction). Single stepping makes it deterministic. */
#include <signal.h>
#include <ucontext.h>
#include <unistd.h>
#include <sys/wait.h>
static volatile long step_left; static void (*step_g)(void); static volatile long steps;
static void on_step(int s, siginfo_t *i, void *u)
{
	steps++;
	if (step_left < 0) step_g();
	else if (step_left-- == 0) { step_g(); ((ucontext_t *)u)->uc_mcontext.gregs[REG_EFL] &= ~0x100L; }
}
static void demo_step(long k, void (*f)(void), void (*g)(void))
{
	struct sigaction sa; memset(&sa, 0, sizeof(sa));
	sa.sa_sigaction = on_step; sa.sa_flags = SA_SIGINFO; sigaction(SIGTRAP, &sa, NULL);
	step_left = k; step_g = g; steps = 0;
	__asm__ volatile("pushfq; orq $0x100, (%%rsp); popfq" ::: "memory", "cc");
	f();
	__asm__ volatile("pushfq; andq $~0x100, (%%rsp); popfq" ::: "memory", "cc");
}
