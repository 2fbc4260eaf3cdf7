// Instantiates the class templates of the library with external handlers.
#pragma once
#include "netcode/encoder.hh"
#include "netcode/decoder.hh"
#include "netcode/dispatch.hh"
struct ccv_packet_handler { void operator()(const char*, std::size_t); void operator()(); };
struct ccv_data_handler { void operator()(const char*, std::size_t); };
template class ntc::encoder<ccv_packet_handler>;
template ntc::encoder<ccv_packet_handler>::encoder(std::uint8_t, ccv_packet_handler&&);
template class ntc::decoder<ccv_packet_handler, ccv_data_handler>;
template ntc::decoder<ccv_packet_handler, ccv_data_handler>::decoder(std::uint8_t, ntc::in_order, ccv_packet_handler&&, ccv_data_handler&&);
template class ntc::detail::packetizer<ccv_packet_handler>;
template std::size_t ntc::dispatch(ntc::encoder<ccv_packet_handler>&, ntc::decoder<ccv_packet_handler, ccv_data_handler>&, ntc::packet&&);
template ntc::packet::packet(const char*, const char*);
template void ntc::packet::assign(const char*, const char*);
