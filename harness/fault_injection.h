// Fault injection: makes write operations of the process fail at a chosen point. To be included by one source file only.
#pragma once
#include <cstdint>

namespace fault {

enum class Mode {
    Once, // a single write fails (EIO)
    Persistent, // all further writes fail (ENOSPC)
    Short, // the write is only done partially, further writes fail (ENOSPC)
};
/// Lets the write (to a regular file) with the specified number (counted from zero) fail.
void arm(std::uint64_t number, Mode mode);
/// Only counts.
void count();
/// Lets renaming fail as if the paths were on different partitions.
void crossDevice(bool enabled);
/// Back to normal; returns the number of writes since arm()/count().
std::uint64_t disarm();
/// Whether a write has failed.
bool triggered();

} // namespace fault
#include <cerrno>
#include <cstdio>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

namespace fault {
namespace {
bool counting = false, armed = false, noRename = false, wasTriggered = false;
std::uint64_t writes = 0, failAt = 0;
Mode failMode = Mode::Once;

/// Returns how many bytes may be written, -1 with errno set if the write is supposed to fail.
ssize_t allowed(int fd, std::size_t size)
{
    if (!counting || fd <= 2) {
        return static_cast<ssize_t>(size);
    }
    struct stat st;
    if (fstat(fd, &st) || !S_ISREG(st.st_mode)) {
        return static_cast<ssize_t>(size);
    }
    const auto n = writes++;
    if (!armed || n < failAt || (n > failAt && failMode == Mode::Once)) {
        return static_cast<ssize_t>(size);
    }
    wasTriggered = true;
    if (n == failAt && failMode == Mode::Short && size > 1) {
        return static_cast<ssize_t>(size / 2);
    }
    errno = failMode == Mode::Once ? EIO : ENOSPC;
    return -1;
}
} // namespace

void arm(std::uint64_t number, Mode mode)
{
    writes = 0;
    failAt = number;
    failMode = mode;
    wasTriggered = false;
    armed = counting = true;
}

void count()
{
    writes = 0;
    wasTriggered = false;
    armed = false;
    counting = true;
}

void crossDevice(bool enabled)
{
    noRename = enabled;
}

std::uint64_t disarm()
{
    counting = armed = noRename = false;
    return writes;
}

bool triggered()
{
    return wasTriggered;
}

} // namespace fault

extern "C" {

ssize_t write(int fd, const void *data, size_t size)
{
    const auto n = fault::allowed(fd, size);
    return n < 0 ? n : syscall(SYS_write, fd, data, static_cast<size_t>(n));
}

ssize_t writev(int fd, const struct iovec *iov, int count)
{
    std::size_t size = 0;
    for (int i = 0; i < count; ++i) {
        size += iov[i].iov_len;
    }
    const auto n = fault::allowed(fd, size);
    if (n < 0) {
        return n;
    }
    if (static_cast<std::size_t>(n) == size) {
        return syscall(SYS_writev, fd, iov, count);
    }
    const auto first = count && iov[0].iov_len ? iov[0].iov_len : static_cast<std::size_t>(n);
    return syscall(SYS_write, fd, iov[0].iov_base, first < static_cast<std::size_t>(n) ? first : static_cast<std::size_t>(n));
}

ssize_t sendfile(int out, int in, off_t *offset, size_t size) noexcept
{
    const auto n = fault::allowed(out, size);
    return n < 0 ? n : syscall(SYS_sendfile, out, in, offset, static_cast<size_t>(n));
}

int rename(const char *from, const char *to) noexcept
{
    if (fault::noRename) {
        errno = EXDEV;
        return -1;
    }
    return static_cast<int>(syscall(SYS_renameat2, -100, from, -100, to, 0));
}
}
