#!/usr/bin/env python3-vt
"""Writes harness/src/groups_data.rs: RFC 5054 moduli (3072..8192 bits are computed from the RFC 3526
formula with pi from mpmath; 1024/1536/2048 are the RFC 5054 appendix A text) and custom safe primes."""
import sympy, mpmath, random
RFC={
1024:("EEAF0AB9ADB38DD69C33F80AFA8FC5E86072618775FF3C0B9EA2314C9C256576D674DF7496EA81D3383B4813D692C6E0E0D5D8E250B98BE48E495C1D6089DAD15DC7D7B46154D6B6CE8EF4AD69B15D4982559B297BCF1885C529F566660E57EC68EDBC3C05726CC02FD4CBF4976EAA9AFD5138FE8376435B9FC61D2FC0EB06E3",2),
1536:("9DEF3CAFB939277AB1F12A8617A47BBBDBA51DF499AC4C80BEEEA9614B19CC4D5F4F5F556E27CBDE51C6A94BE4607A291558903BA0D0F84380B655BB9A22E8DCDF028A7CEC67F0D08134B1C8B97989149B609E0BE3BAB63D47548381DBC5B1FC764E3F4B53DD9DA1158BFD3E2B9C8CF56EDF019539349627DB2FD53D24B7C48665772E437D6C7F8CE442734AF7CCB7AE837C264AE3A9BEB87F8A2FE9B8B5292E5A021FFF5E91479E8CE7A28C2442C6F315180F93499A234DCF76E3FED135F9BB",2),
2048:("AC6BDB41324A9A9BF166DE5E1389582FAF72B6651987EE07FC3192943DB56050A37329CBB4A099ED8193E0757767A13DD52312AB4B03310DCD7F48A9DA04FD50E8083969EDB767B0CF6095179A163AB3661A05FBD5FAAAE82918A9962F0B93B855F97993EC975EEAA80D740ADBF4FF747359D041D5C33EA71D281E446B14773BCA97B43A23FB801676BD207A436C6481F1D2B9078717461A5B9D32E688F87748544523B524B0D57D5EA77A2775D2ECFA032CFBDBF52FB3786160279004E57AE6AF874E7303CE53299CCC041C7BC308D82A5698F3A8D0C38271AE35F8E9DBFBB694B5C803D89F7AE435DE236D525F54759B65E372FCD68EF20FA7111F9E4AFF73",2)}
mpmath.mp.prec=9000
pi=mpmath.pi
for bits,c,g in ((3072,1690314,5),(4096,240904,5),(6144,929484,5),(8192,4743158,19)):
    n=2**bits-2**(bits-64)-1+2**64*(int(mpmath.floor(mpmath.ldexp(pi,bits-130)))+c)
    RFC[bits]=("%X"%n,g)
import os
for b,(h,g) in RFC.items():
    f=open(f'/repo/srp/src/groups/{b}.bin','rb').read()
    print(b, f.hex().upper()==h.upper(), int(h,16).bit_length())
random.seed(5054)
def safe(bits):
    while True:
        q=random.getrandbits(bits-1)|(1<<(bits-2))|1
        if sympy.isprime(q) and (2*q+1).bit_length()==bits and sympy.isprime(2*q+1): return 2*q+1
out=["// generated by tools/mkgroups.py","pub const RFC: &[(usize, &str, u32)] = &["]
for b,(h,g) in RFC.items(): out.append(f'    ({b}, "{h}", {g}),')
out.append("];"); out.append("/// custom safe primes: (bits, hex)"); out.append("pub const CUSTOM: &[(usize, &str)] = &[")
for b in (33,40,48,57,64,65,72,81,96,113,121,128,129,160,193,256,257,320,385,512,513):
    for _ in range(2 if b<300 else 1): out.append(f'    ({b}, "{safe(b):X}"),')
out.append("];")
open('/verif/harness/src/groups_data.rs','w').write("\n".join(out)+"\n")
