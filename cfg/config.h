// Copyright 2016 The open-vcdiff Authors. All Rights Reserved.
//
// Licensed under the Apache License, Version 2.0 (the "License");
// you may not use this file except in compliance with the License.
// You may obtain a copy of the License at
//
//      http://www.apache.org/licenses/LICENSE-2.0
//
// Unless required by applicable law or agreed to in writing, software
// distributed under the License is distributed on an "AS IS" BASIS,
// WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
// See the License for the specific language governing permissions and
// limitations under the License.

/* Defined to PROJECT_VERSION from CMakeLists.txt */
#define OPEN_VCDIFF_VERSION "0.8.4"

/* Define to 1 if you have the <ext/rope> header file. */
/* #undef HAVE_EXT_ROPE */

/* Define to 1 if you have the `gettimeofday' function. */
#define HAVE_GETTIMEOFDAY

/* Define to 1 if you have the <malloc.h> header file. */
#define HAVE_MALLOC_H

/* Define to 1 if you have the `memalign' function. */
#define HAVE_MEMALIGN

/* Define to 1 if you have the `mprotect' function. */
#define HAVE_MPROTECT

/* Define to 1 if you have the `posix_memalign' function. */
#define HAVE_POSIX_MEMALIGN

/* Define to 1 if you have the <sys/mman.h> header file. */
#define HAVE_SYS_MMAN_H

/* Define to 1 if you have the <sys/stat.h> header file. */
/* #undef HAVE_SYS_STAT_H */

/* Define to 1 if you have the <sys/time.h> header file. */
#define HAVE_SYS_TIME_H

/* Define to 1 if you have the <unistd.h> header file. */
#define HAVE_UNISTD_H

/* Define to 1 if you have the <windows.h> header file. */
/* #undef HAVE_WINDOWS_H */

/* Use custom compare function instead of memcmp */
/* #undef VCDIFF_USE_BLOCK_COMPARE_WORDS */

