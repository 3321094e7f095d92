#pragma once
#define __NDK_MAJOR__ 25
