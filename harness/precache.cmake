# Results of the configure-time platform checks, preset to make configuring fast.
set(CMAKE_ANSI_FOR_SCOPE "TRUE" CACHE INTERNAL "")
set(HAVE_DIRECT_H "" CACHE INTERNAL "")
set(HAVE_DIRENT_H "1" CACHE INTERNAL "")
set(HAVE_DLFCN_H "1" CACHE INTERNAL "")
set(HAVE_FCHDIR "1" CACHE INTERNAL "")
set(HAVE_GETTIMEOFDAY "1" CACHE INTERNAL "")
set(HAVE_INT16_T "TRUE" CACHE INTERNAL "")
set(HAVE_INT32_T "TRUE" CACHE INTERNAL "")
set(HAVE_INT64_T "TRUE" CACHE INTERNAL "")
set(HAVE_INT8_T "TRUE" CACHE INTERNAL "")
set(HAVE_INTPTR_T "TRUE" CACHE INTERNAL "")
set(HAVE_ISBLANK "1" CACHE INTERNAL "")
set(HAVE_MKSTEMP "1" CACHE INTERNAL "")
set(HAVE_NANOSLEEP "1" CACHE INTERNAL "")
set(HAVE_NDIR_H "" CACHE INTERNAL "")
set(HAVE_REGEX_H "1" CACHE INTERNAL "")
set(HAVE_SETENV "1" CACHE INTERNAL "")
set(HAVE_SIZEOF_CHAR "TRUE" CACHE INTERNAL "")
set(HAVE_SIZEOF_INT "TRUE" CACHE INTERNAL "")
set(HAVE_SIZEOF_LONG "TRUE" CACHE INTERNAL "")
set(HAVE_SIZEOF_LONGLONG "TRUE" CACHE INTERNAL "")
set(HAVE_SIZEOF_SHORT "TRUE" CACHE INTERNAL "")
set(HAVE_SIZE_T "TRUE" CACHE INTERNAL "")
set(HAVE_SOCKET_H "" CACHE INTERNAL "")
set(HAVE_SOCKLEN_T "TRUE" CACHE INTERNAL "")
set(HAVE_SSIZE_T "TRUE" CACHE INTERNAL "")
set(HAVE_STDDEF_H "1" CACHE INTERNAL "")
set(HAVE_STDINT_H "1" CACHE INTERNAL "")
set(HAVE_STRCASECMP "1" CACHE INTERNAL "")
set(HAVE_STRCASESTR "1" CACHE INTERNAL "")
set(HAVE_STRINGS_H "1" CACHE INTERNAL "")
set(HAVE_STRLWR "" CACHE INTERNAL "")
set(HAVE_STRNCASECMP "1" CACHE INTERNAL "")
set(HAVE_SYS_DIR_H "1" CACHE INTERNAL "")
set(HAVE_SYS_NDIR_H "" CACHE INTERNAL "")
set(HAVE_SYS_SOCKET_H "1" CACHE INTERNAL "")
set(HAVE_SYS_TYPES_H "1" CACHE INTERNAL "")
set(HAVE_UINT "TRUE" CACHE INTERNAL "")
set(HAVE_UINT16_T "TRUE" CACHE INTERNAL "")
set(HAVE_UINT32_T "TRUE" CACHE INTERNAL "")
set(HAVE_UINT64_T "TRUE" CACHE INTERNAL "")
set(HAVE_UINT8_T "TRUE" CACHE INTERNAL "")
set(HAVE_UNISTD_H "1" CACHE INTERNAL "")
set(HAVE_WINDOWS_H "" CACHE INTERNAL "")
set(ICONV_SECOND_ARGUMENT_IS_CONST "" CACHE INTERNAL "")
set(INT16_T "2" CACHE INTERNAL "")
set(INT32_T "4" CACHE INTERNAL "")
set(INT64_T "8" CACHE INTERNAL "")
set(INT8_T "1" CACHE INTERNAL "")
set(INTPTR_T "8" CACHE INTERNAL "")
set(SIZEOF_CHAR "1" CACHE INTERNAL "")
set(SIZEOF_INT "4" CACHE INTERNAL "")
set(SIZEOF_LONG "8" CACHE INTERNAL "")
set(SIZEOF_LONGLONG "8" CACHE INTERNAL "")
set(SIZEOF_SHORT "2" CACHE INTERNAL "")
set(SIZE_T "8" CACHE INTERNAL "")
set(SOCKLEN_T "4" CACHE INTERNAL "")
set(SSIZE_T "8" CACHE INTERNAL "")
set(UINT "4" CACHE INTERNAL "")
set(UINT16_T "2" CACHE INTERNAL "")
set(UINT32_T "4" CACHE INTERNAL "")
set(UINT64_T "8" CACHE INTERNAL "")
set(UINT8_T "1" CACHE INTERNAL "")
set(_CMAKE_LINKER_PUSHPOP_STATE_SUPPORTED "TRUE" CACHE INTERNAL "")
set(__STRIGI_HAVE_GCC_VISIBILITY "1" CACHE INTERNAL "")
