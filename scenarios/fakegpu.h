// A simulated device: memory is host memory, every copy is a scheduling point and can fail.
#pragma once
#include "harness.h"

#include "DataMgr/GpuMgr.h"

namespace hs {
// ---- simulated device -------------------------------------------------------------------
struct FakeGpu : GpuMgr {
  struct Block {
    int8_t* p;
    size_t n;
    int dev;
  };
  std::vector<Block> blocks;
  int ndev = 1;
  double alloc_p = 0, copy_p = 0;
  void range(const int8_t* p, size_t n, int dev, const char* what) {
    Quiet q;
    for (auto& b : blocks)
      if (p >= b.p && p + n <= b.p + b.n) {
        if (b.dev != dev) sim::fail("device:wrong-device", "%s on device %d touches memory of device %d", what, dev, b.dev);
        return;
      }
    sim::fail("device:bad-address", "%s of %zu bytes outside every allocation of device %d", what, n, dev);
  }
  void moving(int8_t* d, const int8_t* s, size_t n) {
    // the transfer happens in pieces; other threads run in between
    size_t half = n / 2;
    if (half) {
      Quiet q;
      memcpy(d, s, half);
    }
    sim::yield_point();
    Quiet q;
    memcpy(d + half, s + half, n - half);
  }
  void copyHostToDevice(int8_t* d, const int8_t* h, const size_t n, const int dev) override {
    range(d, n, dev, "host-to-device copy");
    sim::yield_point();
    if (sim::fault("device-copy", copy_p)) throw DeviceException("simulated copy failure");
    moving(d, h, n);
  }
  void copyHostToDeviceAsync(int8_t* d, const int8_t* h, const size_t n, const int dev) override {
    copyHostToDevice(d, h, n, dev);
  }
  void synchronizeStream(const int) override {}
  void copyDeviceToHost(int8_t* h, const int8_t* d, const size_t n, const int dev) override {
    range(d, n, dev, "device-to-host copy");
    sim::yield_point();
    moving(h, d, n);
  }
  void copyDeviceToDevice(int8_t* d, int8_t* s, const size_t n, const int dd, const int sd) override {
    range(d, n, dd, "device-to-device copy");
    range(s, n, sd, "device-to-device copy");
    sim::yield_point();
    moving(d, s, n);
  }
  void zeroDeviceMem(int8_t* d, const size_t n, const int dev) override {
    range(d, n, dev, "zero");
    memset(d, 0, n);
  }
  void setDeviceMem(int8_t* d, const unsigned char c, const size_t n, const int dev) override {
    range(d, n, dev, "set");
    memset(d, c, n);
  }
  int8_t* allocateDeviceMem(const size_t n, const int dev) override {
    sim::yield_point();
    if (sim::fault("device-alloc", alloc_p)) throw DeviceException("simulated out of device memory");
    Quiet q;
    int8_t* p = new int8_t[n];
    memset(p, 0xd5, n);
    blocks.push_back({p, n, dev});
    return p;
  }
  void freeDeviceMem(int8_t* p) override {
    Quiet q;
    for (size_t i = 0; i < blocks.size(); ++i)
      if (blocks[i].p == p) {
        delete[] p;
        blocks.erase(blocks.begin() + i);
        return;
      }
    sim::fail("device:bad-free", "device memory freed twice or never allocated");
  }
  void setContext(const int) const override {}
  void synchronizeDevices() const override {}
  int getDeviceCount() const override { return ndev; }
  GpuMgrPlatform getPlatform() const override { return GpuMgrPlatform::CUDA; }
  size_t getTotalMem(const int) const override { return 1 << 20; }
  uint32_t getMaxBlockSize() const override { return 1; }
  int8_t getSubGroupSize() const override { return 1; }
  uint32_t getGridSize() const override { return 1; }
  uint32_t getMinEUNumForAllDevices() const override { return 1; }
  bool hasSharedMemoryAtomicsSupport() const override { return false; }
  bool canLoadAsync() const override { return false; }
  size_t getMinSharedMemoryPerBlockForAllDevices() const override { return 0; }
};
}  // namespace hs
