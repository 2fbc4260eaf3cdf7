"""The properties: which specifications decide them, which functions carry them."""
import json, os

_T = {}
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')) as _f:
    for _l in _f:
        if _l.strip():
            _d = json.loads(_l)
            _T[_d['id']] = _d['title']

NE, ND = 'ntc::encoder', 'ntc::decoder'
GF = 'ntc::detail::galois_field'
DD = 'ntc::detail::decoder'
PZ = 'ntc::detail::packetizer'

COMMON = [
    'sizes of objects in memory are below 2^48 bytes (no std::length_error); allocation failure is out of scope except in C17',
    'user handlers do not throw and do not call back into the object',
    'documented preconditions hold: data and packets are not empty, data sizes fit 16 bits and are a multiple of the word size of the field',
    'standard library, Boost containers and gf_complete behave as modelled in ccv/lib.py',
]

PROPS = {
    'C09': dict(specs=['gf'], verify=[GF + '*'], safety=True, harness='gf'),
    'C16': dict(specs=['packet'], verify=['ntc::packet*'], safety=True, harness='pkt'),
    'C05': dict(specs=['shell'], verify=[NE + '::generate_repair', NE + '::operator()*', 'ntc::detail::encoder::operator()'], harness='enc'),
    'C01': dict(specs=[], verify=[], harness='hist'),
    'C02': dict(specs=['dec'], verify=[DD + '::*'], harness='hist'),
    'C03': dict(specs=['dec'], verify=[DD + '::*'], harness='hist'),
    'C04': dict(specs=['dec'], verify=[DD + '::*'], harness='hist'),
    'C15': dict(specs=['dec'], verify=[DD + '::*'], harness='hist'),
    'C06': dict(specs=['wire', 'ids'], verify=[PZ + '::write_source', PZ + '::read_source', PZ + '::write_repair', PZ + '::read_repair'], harness='wire'),
    'C07': dict(specs=['ids'], verify=[PZ + '::write_ack', PZ + '::read_ack'], harness='wire'),
    'C08': dict(specs=[], verify=[], harness='mal'),
    'C10': dict(specs=[], verify=[], harness='inv'),
    'C11': dict(specs=['shell'], verify=[NE + '::*'], harness='enc'),
    'C12': dict(specs=['shell'], verify=[NE + '::*'], harness='enc'),
    'C13': dict(specs=['shell'], verify=[NE + '::*'], harness='enc'),
    'C14': dict(specs=['shell'], verify=[ND + '::*'], harness='ack'),
    'C17': dict(specs=[], verify=[], harness='capi', harness_c=True),
    'C18': dict(specs=['shell'], verify=['ntc::detail::get_packet_type', 'ntc::dispatch', NE + '::operator()*', ND + '::operator()*'], harness='mal'),
}
for _k, _v in PROPS.items():
    _v['title'] = _T[_k]
    _v.setdefault('assumptions', [])
    if not _v['specs']:
        _v.setdefault('note', 'Interim: bounded search on the real code only; the contracts of this property are under construction.')
    _v['level'] = 'proof' if _v['specs'] else 'other'
    _v['assumptions'] = _v['assumptions'] + COMMON
