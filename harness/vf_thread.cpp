// Binding of detail::dispatch: the calls of the worker and the elements they
// process are recorded; the order in which elements are processed follows, as
// far as the partition allows it, the requested schedule.
#include <pybind11/pybind11.h>
#include <pybind11/stl.h>

#include <algorithm>
#include <chrono>
#include <condition_variable>
#include <mutex>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <vector>

#include "pyinterp/detail/thread.hpp"

namespace py = pybind11;

namespace {
using Event = std::tuple<std::string, long, long, long>;

struct Recorder {
  std::mutex mutex;
  std::condition_variable cv;
  std::vector<Event> log;
  std::vector<long> order;
  std::vector<bool> passed;
  std::vector<bool> failing;
  long calls = 0;
  long patience;

  void add(const char *what, long a, long b, long c) {
    if (log.size() < 10000) log.emplace_back(what, a, b, c);
  }
  bool turn(long i) {
    for (auto j : order) {
      if (j == i) return true;
      if (!passed[j]) return false;
    }
    return true;
  }
  void run(long start, long end) {
    long call;
    {
      std::lock_guard<std::mutex> lock(mutex);
      call = ++calls;
      add("start", start, end, 0);
    }
    for (auto i = start; i < end && i < start + 10000; ++i) {
      std::unique_lock<std::mutex> lock(mutex);
      if (i >= 0 && i < static_cast<long>(passed.size())) {
        cv.wait_for(lock, std::chrono::milliseconds(patience),
                    [&] { return turn(i); });
        passed[i] = true;
        cv.notify_all();
        if (failing[i]) {
          add("fail", call, i, 0);
          throw std::runtime_error(std::to_string(i));
        }
      }
      add("elem", call, i, 0);
    }
    std::lock_guard<std::mutex> lock(mutex);
    add("end", call, 0, 0);
  }
};
}  // namespace

void init_vf_thread(py::module &m) {
  m.def("vf_dispatch", [](size_t size, size_t threads,
                          const std::vector<long> &failing,
                          const std::vector<long> &order,
                          long patience) -> std::vector<Event> {
    // threads which are not joined could still use it
    auto *rec = new Recorder();
    rec->order = order;
    rec->passed.resize(size, false);
    rec->failing.resize(size, false);
    rec->patience = patience;
    for (auto i : failing) rec->failing[i] = true;
    auto last = [&](const char *what, long value) {
      std::lock_guard<std::mutex> lock(rec->mutex);
      rec->add(what, value, 0, 0);
    };
    {
      py::gil_scoped_release release;
      try {
        pyinterp::detail::dispatch(
            [rec](size_t start, size_t end) {
              rec->run(static_cast<long>(start), static_cast<long>(end));
            },
            size, threads);
        last("return", 0);
      } catch (const std::runtime_error &exc) {
        long value = -1;
        try {
          value = std::stol(exc.what());
        } catch (...) {
        }
        last("raise", value);
      } catch (...) {
        last("raise", -1);
      }
      std::this_thread::sleep_for(std::chrono::milliseconds(1));
    }
    std::lock_guard<std::mutex> lock(rec->mutex);
    return rec->log;
  });
}
