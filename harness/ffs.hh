// Faults and delays in the system calls the process makes on files under one directory.
#pragma once
#include <atomic>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace fsf {
enum Op
{
    Open, // open, openat, fopen: only those that may create or write
    Write, // write, writev, pwrite, pwritev
    Mkdir,
    NOps
};
struct Action
{
    int err = 0;       // fail with this errno
    bool partial = false; // writes: take about half of the bytes, successfully
    unsigned delay_us = 0;
    std::function<void()> gate; // called outside the lock, before the call takes place
};
using Decide = std::function<Action(Op, const std::string& path, uint64_t nth)>;

void arm(const std::string& root, Decide d); // nth counts the calls of each kind since arm
void disarm();
uint64_t calls(Op);    // since arm
uint64_t faults();     // failures returned since arm
uint64_t partials();
} // namespace fsf
