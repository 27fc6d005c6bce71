#pragma once
// Device model of the oracle: console, interrupt controller claim register,
// timer and copy engine, driven only by committed accesses.
#include "../iss/iss.h"
#include <string>
#include <vector>

namespace vp {

// A device behind the memory bus: 2 KB of plain registers, then registers whose
// value changes with every read and that a write sets.
struct BusDev {
  static constexpr uint32_t BASE = 0x1fb00000u, SIZE = 0x1000u;
  uint8_t b[0x800] = {};
  uint32_t n[0x200] = {};
  static bool in(uint32_t a) { return a - BASE < SIZE; }
  static uint32_t mask(int size) {
    return size >= 4 ? ~0u : (1u << (size * 8)) - 1;
  }
  uint32_t read(uint32_t a, int size) {
    const uint32_t o = a - BASE;
    uint32_t v = 0;
    if (o < 0x800) {
      std::memcpy(&v, b + o, std::min<uint32_t>(size, 0x800 - o));
      return v & mask(size);
    }
    const uint32_t w = (o - 0x800) >> 2;
    v = (w * 977 + n[w]++ + 1) * 0x9E3779B9u;
    return v >> (8 * (o & 3)) & mask(size);
  }
  void write(uint32_t a, uint32_t v, int size) {
    const uint32_t o = a - BASE;
    if (o < 0x800)
      std::memcpy(b + o, &v, std::min<uint32_t>(size, 0x800 - o));
    else
      n[(o - 0x800) >> 2] = v & mask(size);
  }
};

struct DevModel {
  static constexpr uint32_t UART = 0x10000000u, UART_SZ = 0x100u;
  static constexpr uint32_t PLIC = 0x0c000000u, PLIC_SZ = 0x210000u;
  static constexpr uint32_t CLAIM = 0x0c201004u;
  static constexpr uint32_t TIMER = 0x1fd0e000u, TIMER_SZ = 0x100u;
  static constexpr uint32_t DMA = 0x1fd0f000u, DMA_SZ = 0x100u;
  static constexpr uint64_t LAG = 16;      // cycles a line may lag behind
  static constexpr uint64_t LOADLAG = 4000; // cycles between sampling and commit

  uint64_t off = 0, cmp = 0;
  uint32_t dsrc = 0, ddst = 0, dlen = 0, dctrl = 0, dstat = 0;
  bool uart_irq = false, dma_irq = false;
  std::string console;
  uint64_t last_timer_on = 0, last_timer_off = 0;   // cycle last seen (+1)
  uint64_t last_ext_on = 0, last_ext_off = 0;
  uint64_t stores = 0, loads = 0, dma_copies = 0, dma_seen = 0;
  uint64_t last_cfg = 0; // cycle of the last timer write
  Iss *iss = nullptr;

  static bool in(uint32_t a, uint32_t b, uint32_t n) {
    return a >= b && a - b < n;
  }
  static bool modeled(uint32_t a) {
    return in(a, UART, UART_SZ) || in(a, PLIC, PLIC_SZ) ||
           in(a, TIMER, TIMER_SZ) || in(a, DMA, DMA_SZ);
  }
  bool timer_on(uint64_t now) const { return now + off >= cmp; }
  bool ext_on() const { return uart_irq || dma_irq; }
  uint32_t claim() const { return dma_irq ? 11u : uart_irq ? 10u : 0u; }

  void observe(uint64_t now) {
    if (timer_on(now))
      last_timer_on = now + 1;
    else
      last_timer_off = now + 1;
    if (ext_on())
      last_ext_on = now + 1;
    else
      last_ext_off = now + 1;
  }
  static bool recent(uint64_t mark, uint64_t now, uint64_t lag) {
    return mark && mark - 1 + lag >= now;
  }
  // Lines that may be seen as raised / must be seen as raised.
  uint32_t may(uint64_t now, uint64_t lag = LAG) const {
    uint32_t m = 0;
    if (timer_on(now) || recent(last_timer_on, now, lag))
      m |= 1u << 7;
    if (ext_on() || recent(last_ext_on, now, lag))
      m |= 1u << 11;
    return m;
  }
  uint32_t must(uint64_t now, uint64_t lag = LAG) const {
    uint32_t m = 0;
    const bool was_on = now < lag ? timer_on(now) : timer_on(now - lag);
    if (timer_on(now) && was_on && !recent(last_timer_off, now, lag))
      m |= 1u << 7;
    if (ext_on() && !recent(last_ext_off, now, lag))
      m |= 1u << 11;
    return m;
  }

  // The words that describe the devices when a run is handed over.
  uint32_t word(uint32_t a, uint64_t now) const {
    switch (a & ~3u) {
    case CLAIM: return claim();
    case TIMER: return static_cast<uint32_t>(now + off);
    case TIMER + 4: return static_cast<uint32_t>((now + off) >> 32);
    case TIMER + 8: return static_cast<uint32_t>(cmp);
    case TIMER + 12: return static_cast<uint32_t>(cmp >> 32);
    case DMA: return dsrc;
    case DMA + 4: return ddst;
    case DMA + 8: return dlen;
    case DMA + 12: return dctrl;
    case DMA + 16: return dstat;
    default: return iss->rd32(a);
    }
  }
  void set_word(uint32_t a, uint32_t d, uint64_t now) {
    const uint64_t t = now + off;
    switch (a & ~3u) {
    case CLAIM:
      uart_irq = d == 10;
      dma_irq = d == 11;
      break;
    case TIMER: off = ((t & ~0xffffffffull) | d) - now; return;
    case TIMER + 4:
      off = ((static_cast<uint64_t>(d) << 32) | (t & 0xffffffffull)) - now;
      return;
    case TIMER + 8: cmp = (cmp & ~0xffffffffull) | d; return;
    case TIMER + 12:
      cmp = (static_cast<uint64_t>(d) << 32) | (cmp & 0xffffffffull);
      return;
    case DMA: dsrc = d; return;
    case DMA + 4: ddst = d; return;
    case DMA + 8: dlen = d; return;
    case DMA + 12: dctrl = d & 2; return;
    case DMA + 16: dstat = d; return;
    }
    if (d || a < 0x1000)
      iss->io[a & ~3u] = d;
  }

  // Value a committed device load must have returned; returns false when the
  // value is wrong.
  bool check_load(uint32_t pa, int size, bool sext, uint32_t got, uint64_t now,
                  uint32_t &want) {
    loads++;
    if (pa == TIMER || pa == TIMER + 4) {
      const uint64_t hi = now + off;
      uint64_t lo = hi > LOADLAG ? hi - LOADLAG : 0;
      if (last_cfg && now - last_cfg < LOADLAG) {
        const uint64_t c = last_cfg + off; // value right after the last write
        lo = c;
      }
      if (pa == TIMER) {
        want = static_cast<uint32_t>(hi);
        return static_cast<uint32_t>(static_cast<uint32_t>(hi) - got) <=
               static_cast<uint32_t>(hi - lo);
      }
      want = static_cast<uint32_t>(hi >> 32);
      return got == want || got == static_cast<uint32_t>(lo >> 32);
    }
    if (pa == TIMER + 8)
      want = static_cast<uint32_t>(cmp);
    else if (pa == TIMER + 12)
      want = static_cast<uint32_t>(cmp >> 32);
    else if (pa == DMA)
      want = dsrc;
    else if (pa == DMA + 4)
      want = ddst;
    else if (pa == DMA + 8)
      want = dlen;
    else if (pa == DMA + 12)
      want = dctrl;
    else if (pa == DMA + 16)
      want = dstat;
    else {
      if ((pa & ~3u) == CLAIM)
        iss->io[CLAIM] = claim();
      uint32_t v = iss->rdN(pa, size);
      if (sext && size == 1)
        v = static_cast<uint32_t>(static_cast<int8_t>(v));
      if (sext && size == 2)
        v = static_cast<uint32_t>(static_cast<int16_t>(v));
      want = v;
    }
    return got == want;
  }

  // Effect of a committed device store (data is not shifted).
  void store(uint32_t pa, uint32_t data, int size, uint64_t now) {
    stores++;
    observe(now);
    if (in(pa, TIMER, 16)) {
      const uint64_t t = now + off;
      if (pa == TIMER)
        off = ((t & ~0xffffffffull) | data) - now;
      else if (pa == TIMER + 4)
        off = ((static_cast<uint64_t>(data) << 32) | (t & 0xffffffffull)) - now;
      else if (pa == TIMER + 8)
        cmp = (cmp & ~0xffffffffull) | data;
      else
        cmp = (static_cast<uint64_t>(data) << 32) | (cmp & 0xffffffffull);
      if (pa < TIMER + 8)
        last_cfg = now;
      observe(now);
      return;
    }
    if (in(pa, DMA, 20)) {
      if (pa == DMA)
        dsrc = data;
      else if (pa == DMA + 4)
        ddst = data;
      else if (pa == DMA + 8)
        dlen = data;
      else if (pa == DMA + 12) {
        dctrl = data & 2;
        if (data & 1) {
          const bool ok = dlen && dsrc >= RAM_LO && ddst >= RAM_LO &&
                          static_cast<uint64_t>(dsrc) + dlen <= RAM_HI &&
                          static_cast<uint64_t>(ddst) + dlen <= RAM_HI;
          if (!ok) {
            dstat = 4;
          } else {
            std::vector<uint8_t> t(iss->ram + (dsrc - RAM_LO),
                                   iss->ram + (dsrc - RAM_LO) + dlen);
            std::memcpy(iss->ram + (ddst - RAM_LO), t.data(), dlen);
            dstat = 2;
            dma_copies++;
            if (dctrl & 2)
              dma_irq = true;
          }
        }
      } else
        dstat &= ~data;
      observe(now);
      return;
    }
    iss->wrN(pa, data, size);
    if (pa == UART) {
      iss->io[UART] = iss->rd32(UART) & 0xffffff00u;
      console.push_back(static_cast<char>(data));
    } else if (pa == UART + 1) {
      const uint32_t cmd = data & 0xff;
      if (cmd == 7) {
        iss->io[UART] = iss->rd32(UART) & 0xfff0ffffu;
        uart_irq = true;
      } else if (cmd == 5) {
        iss->io[UART] = (iss->rd32(UART) & 0xfff0ffffu) | 0x00030000u;
      }
    } else if (pa == CLAIM) {
      const uint32_t c = data & 0xff;
      if (c == 10)
        uart_irq = false;
      else if (c == 11)
        dma_irq = false;
      iss->io[CLAIM] = claim();
    }
    observe(now);
  }
};

} // namespace vp
