// Environment contracts for QtTest: what its reporting functions are given, and their unspecified answers.
#pragma once
#include "vq.h"
#include <qtestcase.h>
#include <qtestsystem.h>
namespace vqt {
enum Report { NoReport, Verify, Compare, Fail, Skip, ExpectFail };
struct TestM {
    int reports = 0; int kind = NoReport; bool answer = false;   // answer: what Qt Test says (a failure can be expected, a success unexpected)
    bool value = false; int actual = 0, expected = 0, mode = 0, line = 0;
    const char *a = nullptr, *b = nullptr; char message[160] = {};
    int element = 0;          // the element of the test data
    const char *named = nullptr;
    bool failed = false;      // the running test has already failed
    int waited = 0; int waits = 0;
};
extern TestM tst;
extern void (*during)(int ms);    // what happens while qWait() processes events
inline bool same(const char *x, const char *y) { while (*x && *x == *y) { ++x; ++y; } return *x == *y; }
}
