// Makes the library believe that malloc is not aligned enough here, so that it uses posix_memalign. Included before everything else.
#pragma once
#include <bits/stdc++.h>
#include <unistd.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/resource.h>
#undef __GLIBC__
