// Turns writing zeros into creating holes (as far as enabled). To be included by one source file only.
#pragma once
#include <cstdint>
#include <cstring>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

namespace sparse {
inline bool skipZeros = false;

inline bool isZero(const void *data, std::size_t size)
{
    const auto *const bytes = static_cast<const char *>(data);
    return !size || (!*bytes && !std::memcmp(bytes, bytes + 1, size - 1));
}

/// Skips the specified number of bytes. Returns false if that is not possible.
inline bool skip(int fd, std::size_t size)
{
    struct stat st;
    if (fd <= 2 || fstat(fd, &st) || !S_ISREG(st.st_mode)) {
        return false;
    }
    const auto position = lseek(fd, 0, SEEK_CUR);
    if (position < 0 || position < st.st_size) {
        return false; // overwrites existing data
    }
    const auto end = position + static_cast<off_t>(size);
    return !ftruncate(fd, end) && lseek(fd, end, SEEK_SET) == end;
}
} // namespace sparse

extern "C" {

ssize_t write(int fd, const void *data, size_t size)
{
    return sparse::skipZeros && size >= 4096 && sparse::isZero(data, size) && sparse::skip(fd, size) ? static_cast<ssize_t>(size) : syscall(SYS_write, fd, data, size);
}

ssize_t writev(int fd, const struct iovec *iov, int count)
{
    if (sparse::skipZeros) {
        std::size_t size = 0;
        auto zero = true;
        for (int i = 0; i < count; ++i) {
            size += iov[i].iov_len;
            zero = zero && sparse::isZero(iov[i].iov_base, iov[i].iov_len);
        }
        if (zero && size >= 4096 && sparse::skip(fd, size)) {
            return static_cast<ssize_t>(size);
        }
    }
    return syscall(SYS_writev, fd, iov, count);
}
}
