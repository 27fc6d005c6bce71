#pragma once
// Callbacks from the bus stand-in into the monitor.
#include <cstdint>
void vp_on_read(int master, uint32_t addr, uint32_t size, uint32_t id);
void vp_on_read_data(int master, uint32_t addr, uint32_t size,
                     const uint32_t *words);
void vp_on_write(int master, uint32_t addr, uint32_t size, uint64_t strb,
                 const uint32_t *words);
void vp_on_tick();
uint32_t vp_device_read(uint32_t addr, uint32_t size);
void vp_device_write(uint32_t addr, uint32_t size, uint64_t strb,
                     uint32_t data);
