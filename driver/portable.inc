// Force-included first in the portable builds: the standard library is configured for the real
// target, then the library is told it is not on x86-64, so that it uses its portable arithmetic.
#include <bits/stdc++.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#undef __x86_64__
#undef __x86_64
#undef __amd64__
#undef __amd64
