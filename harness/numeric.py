"""Concrete value tables: strictly increasing lists the abstract ranks are mapped to."""
import struct
I32, I64, U32, U64 = 'i32', 'i64', 'u32', 'u64'
CLS = {'int32':I32,'sint32':I32,'sfixed32':I32,'int64':I64,'sint64':I64,'sfixed64':I64,'uint32':U32,'fixed32':U32,'uint64':U64,'fixed64':U64,
       'float':'f32','double':'f64'}
def f32(x): return struct.unpack('<f', struct.pack('<f', x))[0]
def next32(x, d):
    if x == 0: return d * 2.0**-149
    i = struct.unpack('<i', struct.pack('<f', x))[0]
    i += d if x > 0 else -d
    return struct.unpack('<f', struct.pack('<i', i))[0]
def next64(x, d):
    if x == 0: return d * 5e-324
    i = struct.unpack('<q', struct.pack('<d', x))[0]
    i += d if x > 0 else -d
    return struct.unpack('<d', struct.pack('<q', i))[0]
M32 = f32(3.4028234663852886e38); M64 = 1.7976931348623157e308
N31, N63 = 1 << 31, 1 << 63
# tables of five values; the index of zero is 0 (unsigned view) or 2 (signed view)
TABLES = {
 I32: {2: [[-2,-1,0,1,2], [-N31,-N31+1,0,N31-2,N31-1], [-N31,-1,0,1,N31-1], [-300,-299,0,255,256], [-65536,-65535,0,65535,65536]],
       0: [[0,1,2,3,4], [0,1,N31-3,N31-2,N31-1], [0,127,128,129,1000]]},
 I64: {2: [[-2,-1,0,1,2], [-N63,-N63+1,0,N63-2,N63-1], [-N63,-1,0,1,N63-1], [-(1<<53)-1,-(1<<53),0,1<<53,(1<<53)+1], [-N31-1,-N31,0,N31,N31+1],
           [-(1<<32)-1,-(1<<32),0,1<<32,(1<<32)+1]],
       0: [[0,1,2,3,4], [0,1,N63-3,N63-2,N63-1], [0,N31-1,N31,(1<<32)-1,1<<32], [0,(1<<53)-1,1<<53,(1<<53)+1,(1<<53)+2]]},
 U32: {0: [[0,1,2,3,4], [0,1,N31-1,N31,N31+1], [0,1,(1<<32)-3,(1<<32)-2,(1<<32)-1], [0,1,N31-1,N31,(1<<32)-1]]},
 U64: {0: [[0,1,2,3,4], [0,1,N63-1,N63,N63+1], [0,1,(1<<64)-3,(1<<64)-2,(1<<64)-1], [0,(1<<32)-1,1<<32,N63,(1<<64)-1], [0,(1<<53),(1<<53)+1,N63-1,N63]]},
 'f32': {2: [[-2.0,-1.0,0.0,1.0,2.0], [f32(-0.2),f32(-0.1),0.0,f32(0.1),f32(0.2)], [-M32,f32(-1e-10),0.0,f32(1e-10),M32],
             [next32(-1.0,-1),-1.0,0.0,1.0,next32(1.0,1)], [f32(-1.17549435e-38),-2.0**-149,0.0,2.0**-149,f32(1.17549435e-38)],
             [f32(-16777216.),f32(-16777215.),0.0,f32(16777215.),f32(16777216.)], [f32(-1e20),f32(-1e19),0.0,f32(1e19),f32(1e22)],
             [f32(-0.3),next32(f32(-0.3),1),0.0,next32(f32(0.7),-1),f32(0.7)]],
         0: [[0.0,0.5,1.0,1.5,2.0], [0.0,f32(0.1),next32(f32(0.1),1),f32(0.3),f32(3.4e38)]]},
 'f64': {2: [[-2.0,-1.0,0.0,1.0,2.0], [-0.2,-0.1,0.0,0.1,0.2], [-M64,-1e-300,0.0,1e-300,M64], [next64(-1.0,-1),-1.0,0.0,1.0,next64(1.0,1)],
             [-2.2250738585072014e-308,-5e-324,0.0,5e-324,2.2250738585072014e-308], [-1e21,-1e20,0.0,1e20,1e21], [-9007199254740992.0,-9007199254740991.0,0.0,9007199254740991.0,9007199254740992.0],
             [-0.3,next64(-0.3,1),0.0,next64(0.7,-1),0.7]],
         0: [[0.0,0.5,1.0,1.5,2.0], [0.0,0.1,next64(0.1,1),0.3,1.7e308]]},
}
for c in TABLES:
    for z in TABLES[c]:
        for t in TABLES[c][z]: assert len(t) == 5 and all(a < b for a, b in zip(t, t[1:])) and t[z] == 0, (c, z, t)
