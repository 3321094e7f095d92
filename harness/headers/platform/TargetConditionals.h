#pragma once
#define TARGET_OS_MAC 1
#ifdef MC_IPHONE
#define TARGET_OS_IPHONE 1
#define TARGET_OS_OSX 0
#define TARGET_OS_IOS 1
#else
#define TARGET_OS_IPHONE 0
#define TARGET_OS_OSX 1
#define TARGET_OS_IOS 0
#endif
