"""C13: bus messages are recorded and recovered field by field."""
import struct
import vlib

TECH = 'TLA+ specification of message objects and group members (MdfBus), TLC trace validation of recorded save/read histories; TLC model of the interleaved payload store (MdfBusMC)'
CAN = ['CAN_DataFrame', 'CAN_RemoteFrame', 'CAN_ErrorFrame', 'CAN_OverloadFrame']
LIN = ['LIN_Frame', 'LIN_ChecksumError', 'LIN_ReceiveError', 'LIN_SyncError', 'LIN_TransmissionError', 'LIN_WakeUp', 'LIN_Spike', 'LIN_LongDom']
ETH = ['ETH_Frame', 'ETH_ChecksumError', 'ETH_LengthError', 'ETH_ReceiveError']
MOST = ['MOST_Message', 'MOST_Packet', 'MOST_EthernetPacket', 'MOST_SignalState', 'MOST_MaxPosInfo', 'MOST_BoundDesc', 'MOST_AllocTable', 'MOST_SysLockState', 'MOST_ShutdownFlag']
FLX = ['FLX_Frame', 'FLX_Pdu', 'FLX_FrameHeader', 'FLX_NullFrame', 'FLX_ErrorFrame', 'FLX_Symbol']
KINDS = {'CAN': CAN, 'LIN': LIN, 'ETH': ETH, 'MOST': MOST, 'FLX': FLX}


def bits(n):
    def f(rng):
        return str(rng.choice([0, 1, (1 << n) - 1, 1 << (n - 1), rng.randrange(1 << n), rng.randrange(1 << n)]) & ((1 << n) - 1))
    return f


def one(*v):
    return lambda rng: str(rng.choice(v))


def flt(rng):
    f = rng.choice([0.0, 9600.0, 19200.0, 20000.5, -1.0, 1e30, rng.random() * 1e5])
    return 'f%d' % struct.unpack('<I', struct.pack('<f', f))[0]


def mac(rng):
    return 'x' + ''.join('%02x' % rng.choice([0, 255, rng.randrange(256)]) for _ in range(6))


B1 = bits(1)
CANA = dict(BusChannel=bits(8), DLC=bits(4), Dir=B1, SRR=B1, EDL=B1, BRS=B1, ESI=B1, WakeUp=B1, SingleWire=B1, R0=B1, R1=B1, FrameDuration=bits(32), CRC=bits(32), BitPosition=bits(16), ErrorType=one(0, 1, 2, 3, 4, 5))
LINA = dict(BusChannel=bits(8), ID=bits(6), Dir=B1, ReceivedDataByteCount=bits(4), Checksum=bits(8), ChecksumModel=one(-1, 0, 1), SOF=bits(64), Baudrate=flt, ResponseBaudrate=flt, BreakLength=bits(32),
            BreakDelimiterLength=bits(32), SpecifiedDataByteCount=bits(4), Type=one(0, 1, 2), Length=bits(32))
ETHA = dict(BusChannel=bits(8), Source=mac, Destination=mac, EtherType=bits(16), ReceivedDataByteCount=bits(16), DataLength=bits(16), CRC=bits(32), ExpectedCRC=bits(32), Dir=B1, PadByteCount=bits(16), ErrorType=B1)
MP = dict(BusChannel=bits(8), Speed=one(0, 1, 2), TransferType=B1, Dir=B1, SpecifiedDataByteCount=bits(16), ReceivedDataByteCount=bits(16), CRC=bits(32), CAck=one(0, 1, 4), PAck=one(0, 1, 4), AckNAck=bits(4))
FX = dict(BusChannel=bits(8), ID=bits(11), Cycle=bits(6), FlxChannel=B1, Dir=B1)
FF = dict(FX, PayloadLength=bits(8), CRC=bits(24), HeaderCRC=bits(16), ReservedBitFlag=B1, PayloadPreambleFlag=B1, NullFrameFlag=B1, SyncFrameFlag=B1, StartUpFrameFlag=B1, FrameLength=bits(32))
ATTR = {
    'CAN': CANA, 'LIN': LINA, 'ETH': ETHA,
    'MOST_EthernetPacket': dict(MP, Source=bits(48), Destination=bits(48)),
    'MOST_Packet': dict(MP, Source=bits(16), Destination=bits(16), PIndex=bits(8)),
    'MOST_Message': dict(MP, Source=bits(16), Destination=bits(16), PIndex=bits(8), TxFailed=B1, RType=one(0, 1, 2, 3, 4, 5)),
    'MOST_SignalState': dict(BusChannel=bits(8), State=one(0, 1, 2, 3, 16, 32)), 'MOST_MaxPosInfo': dict(BusChannel=bits(8), DeviceCount=bits(8)),
    'MOST_BoundDesc': dict(BusChannel=bits(8), SBC=bits(16)), 'MOST_AllocTable': dict(BusChannel=bits(8), FreeByteCount=bits(16), TableLayout=one(0, 1)),
    'MOST_SysLockState': dict(BusChannel=bits(8), SysLockState=B1), 'MOST_ShutdownFlag': dict(BusChannel=bits(8), ShutdownFlag=B1),
    'FLX_Frame': FF, 'FLX_FrameHeader': FF, 'FLX_NullFrame': FF,
    'FLX_ErrorFrame': dict(FF, IsSyntaxError=B1, IsContentError=B1, IsSlotBndViolation=B1, IsTxConflict=B1, IsValidFrame=B1),
    'FLX_Pdu': dict({k: v for k, v in FX.items() if k != 'Dir'}, PduLength=bits(8), IsMultiplexed=B1, Switch=bits(16), ValidFlag=B1, UpdateBitPos=bits(12), PduByteOffset=bits(8), PduBitOffset=bits(3)),
    'FLX_Symbol': dict(BusChannel=bits(8), Cycle=bits(6), FlxChannelMask=one(0, 1, 2, 3), SymbolLength=bits(8), SymbolType=one(0, 1, 2, 3)),
}
PAY = {'CAN', 'LIN', 'ETH', 'MOST_EthernetPacket', 'MOST_Packet', 'MOST_Message', 'MOST_AllocTable', 'FLX_Frame', 'FLX_FrameHeader', 'FLX_NullFrame', 'FLX_ErrorFrame', 'FLX_Pdu'}


def payload(rng, obj, mx):
    if obj == 'CAN':
        n = rng.choice([x for x in [0, 1, 2, 7, 8, 8, 12, 16, 20, 24, 32, 48, 64, rng.randrange(0, 65), rng.randrange(0, 9)] if x <= mx])
    elif obj == 'LIN':
        n = rng.randrange(0, 9)
    elif obj.startswith('FLX'):
        n = rng.choice([0, 1, 2, 8, 127, 254, 255, rng.randrange(0, 256)])
    else:
        n = rng.choice([0, 1, 5, 14, 60, rng.randrange(0, 200), rng.randrange(0, 1500)])
    return [rng.randrange(256) for _ in range(n)]


def attrs(rng, obj, full):
    t = ATTR[obj]
    ks = sorted(t) if full else rng.sample(sorted(t), rng.randrange(1, min(6, len(t)) + 1))
    v = {k: t[k](rng) for k in ks}
    if obj == 'ETH' and 'CRC' in v:
        v['ReceivedCRC'] = v['CRC']
    return v


def scenario(rng, i):
    buses = rng.choice([['CAN'], ['CAN'], ['LIN'], ['ETH'], ['MOST'], ['FLX'], ['CAN', 'LIN'], ['CAN', 'ETH'], ['LIN', 'ETH', 'MOST'], ['CAN', 'LIN', 'ETH', 'MOST', 'FLX']])
    storage = rng.choice(['vlsd', 'fixed', 'mlsd'])
    w = rng.choice(['bus', 'bus', 'mdf4', 'conv'])
    mand = rng.random() < 0.35
    mx = rng.choice([8, 12, 16, 64]) if storage == 'mlsd' else 64
    kinds = [k for b in buses for k in KINDS[b] if not (mand and k == 'CAN_OverloadFrame')]
    use = [k for k in kinds if rng.random() < (0.9 if len(kinds) < 9 else 0.4)] or kinds[:1]
    ops, t, seen = [], 5, set()
    for _ in range(rng.choice([1, 3, 6, 10, 14])):
        k = rng.choice(use)
        obj = k[:3] if k[:3] in ('CAN', 'LIN', 'ETH') else k
        m = []
        if obj in PAY and (obj not in seen or rng.random() < 0.7):
            m.append({'op': 'bytes', 'obj': obj, 'b': payload(rng, obj, mx)})
        if obj == 'CAN':
            if obj not in seen or rng.random() < 0.5:
                x = rng.random() < 0.3
                m.append({'op': 'id', 'obj': obj, 'id': rng.choice([0, 1, 2047, 2048, (1 << 29) - 1, rng.randrange(1 << 29), rng.randrange(2048)]), 'x': x})
            if rng.random() < 0.15:
                m.append({'op': 'ext', 'obj': obj, 'x': rng.random() < 0.5})
            if rng.random() < 0.15:
                m.append({'op': 'len', 'obj': obj, 'n': rng.choice([0, 1, 8, mx, min(mx, 12)])})
        a = attrs(rng, obj, obj not in seen)
        if obj == 'CAN' and rng.random() < 0.6:
            a.pop('DLC', None)
        if obj == 'ETH' and rng.random() < 0.6:
            a.pop('DataLength', None)
        if obj.startswith('MOST') and obj in PAY and obj != 'MOST_AllocTable' and any(x['op'] == 'bytes' for x in m):
            a.update({q: ATTR[obj][q](rng) for q in ('SpecifiedDataByteCount', 'ReceivedDataByteCount')})
        if a:
            m.append({'op': 'set', 'obj': obj, 'v': a})
        if obj in seen and rng.random() < 0.1:
            m = []            # the very same message once more
        seen.add(obj)
        ops += m
        ops.append({'op': 'save', 'obj': obj, 'kind': k, 't': t, 'bydg': rng.random() < 0.5})
        t += rng.choice([0, 1, 3])
        if rng.random() < 0.15:
            ops.append({'op': 'tick'})
    return {'id': i, 'cfg': {'w': w, 'storage': storage, 'max': mx, 'mand': mand, 'z': rng.random() < 0.4, 'per': rng.random() < 0.7, 'buses': buses, 'auto': rng.random() < 0.5, 'split': rng.random() < 0.3,
                             'start': rng.choice([0, 5]), 'kinds': kinds}, 'ops': ops}


def run(chk):
    chk.model('MdfBusMC', 'SPECIFICATION Spec\nCONSTANT MaxMsg = %d\nCONSTANT Pay = {1, 2}\nINVARIANT Recovered\nINVARIANT TypeOK\nCHECK_DEADLOCK FALSE\n' % chk.n(4, 6), 'payload stores of a bus log', expect_states=1000)
    exe = vlib.build(['drv_bus'])['drv_bus']
    scs = [scenario(chk.rng, i + 1) for i in range(chk.n(700, 15000))]
    by = {s['id']: s for s in scs}
    chk.scn = by
    tr = vlib.run_driver(exe, scs, chk.work + '/run')
    chk.cov['scenarios'] = len(scs)
    chk.cov['messages'] = sum(1 for s in scs for o in s['ops'] if o['op'] == 'save')
    chk.sample(scs[0])
    chk.validate('MdfBusTrace', 'SPECIFICATION TSpec\n', [tr[s['id']] for s in scs], 'bus messages',
                 rerun=lambda ids: [vlib.run_driver(exe, [by[i]], chk.work + '/again')[i] for i in ids])
