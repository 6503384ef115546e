import subprocess,base64,random,os,re,datetime
K='/verif/harness/keys/'
random.seed(7)
def sh(*a,inp=None):
    r=subprocess.run(a,input=inp,capture_output=True); assert r.returncode==0,(a,r.stderr); return r.stdout
def name(s): 
    return b''.join(bytes([len(l)])+l.encode() for l in s.split('.') if l)+b'\0'
def tag(rd,alg,key):
    if alg==1: return int.from_bytes(key[-3:-1],'big')
    ac=0
    for i,b in enumerate(rd): ac+= b if i&1 else b<<8
    ac+=(ac>>16)&0xffff
    return ac&0xffff
def nums(pem_text): 
    pass
def field(txt,n):
    m=re.search(n+r':\s*\n((?:\s+[0-9a-f:]+\n)+)',txt); 
    return int(m.group(1).replace(':','').replace(' ','').replace('\n',''),16)
def be(x,n=None): return x.to_bytes(n or (x.bit_length()+7)//8,'big')
def derint(d,i):
    assert d[i]==2; n=d[i+1]; return int.from_bytes(d[i+2:i+2+n],'big'), i+2+n
def sigder(d):
    assert d[0]==0x30
    i=2 if d[1]<128 else 3
    r,i=derint(d,i); s,i=derint(d,i); return r,s
# ed25519 keys
for n in 'ab':
    f=K+f'ed25519{n}.p8'
    if not os.path.exists(f):
        v1=sh('openssl','genpkey','-algorithm','ED25519','-outform','DER')
        pub=sh('openssl','pkey','-inform','DER','-pubout','-outform','DER',inp=v1)[-32:]
        open(f,'wb').write(bytes.fromhex('3051020101300506032b657004220420')+v1[-32:]+bytes.fromhex('812100')+pub)
def p8(n): return open(K+n,'rb').read()
def key(n):
    if n.startswith('ed448'):
        v=bytes.fromhex('3047020100300506032b6571043b0439')+p8(n)
        return v, sh('openssl','pkey','-inform','DER','-pubout','-outform','DER',inp=v)[-57:]
    if n.startswith('ed25519'):
        b=p8(n); v=bytes.fromhex('302e020100300506032b657004220420')+b[16:48]
        return v,b[-32:]
    d=p8(n); t=sh('openssl','pkey','-inform','DER','-text','-noout',inp=d).decode()
    if n.startswith('rsa'):
        m=field(t,'modulus'); e=int(re.search(r'publicExponent: (\d+)',t).group(1)); eb=be(e)
        return d, bytes([len(eb)])+eb+be(m)
    if n.startswith('dsa'):
        p,q,g,y=field(t,'P'),field(t,'Q'),field(t,'G'),field(t,'pub')
        L=64+8*((p.bit_length()-512+63)//64)
        return d, bytes([(L-64)//8])+be(q,20)+be(p,L)+be(g,L)+be(y,L)
    m=re.search(r'pub:\s*\n((?:\s+[0-9a-f:]+\n)+)',t).group(1); b=bytes.fromhex(re.sub(r'[^0-9a-f]','',m)); assert b[0]==4
    return d,b[1:]
out=[]
def put(src,flags,alg,pub,owner,rtype,ttl,rds,exp,inc,signer,sig,t=None):
    rd=flags.to_bytes(2,'big')+b'\3'+bytes([alg])+pub
    kt=tag(rd,alg,pub)
    if t is not None: assert t==kt,(src,t,kt)
    lab=len([l for l in owner.split('.') if l])
    head=rtype.to_bytes(2,'big')+bytes([alg,lab])+ttl.to_bytes(4,'big')+exp.to_bytes(4,'big')+inc.to_bytes(4,'big')+kt.to_bytes(2,'big')+name(signer)
    data=head+b''.join(name(owner)+rtype.to_bytes(2,'big')+b'\0\1'+ttl.to_bytes(4,'big')+len(r).to_bytes(2,'big')+r for r in sorted(rds))
    if callable(sig): sig=sig(data)
    rs=list(rds); random.shuffle(rs)
    out.append(' '.join([src,rd.hex(),name(owner).hex(),str(rtype),str(ttl),','.join(r.hex() for r in rs),(head+sig).hex()]))
def signer(keyname,alg,der):
    def f(data):
        open('/tmp/kv/k','wb').write(der); open('/tmp/kv/d','wb').write(data)
        if alg in (15,16): return sh('openssl','pkeyutl','-sign','-rawin','-in','/tmp/kv/d','-inkey','/tmp/kv/k','-keyform','DER')
        md={1:'md5',5:'sha1',8:'sha256',10:'sha512',3:'sha1',13:'sha256',14:'sha384'}[alg]
        s=sh('openssl','dgst','-'+md,'-sign','/tmp/kv/k','-keyform','DER','/tmp/kv/d')
        if alg==3:
            r,ss=sigder(s); p=key(keyname)[1][0]; return bytes([p])+be(r,20)+be(ss,20)
        if alg in(13,14):
            L=32 if alg==13 else 48; r,ss=sigder(s); return be(r,L)+be(ss,L)
        return s
    return f
sets=[('host.example.',1,3600,[bytes([192,0,2,i]) for i in (7,1,200,33)]),
      ('example.',15,86400,[b'\0\x0a'+name('mail.example.'),b'\0\x14'+name('backup.example.')]),
      ('a.b.c.example.',16,0,[b'\3abc',b'\2ab\1c',b'\4abcd']),
      ('.',2,518400,[name(f'{c}.root-servers.net.') for c in 'mabc'])]
for kn,algs in [('rsa1024.p8',[1,5,8,10]),('rsa1024e3.p8',[1,5,8]),('rsa2048a.p8',[1,5,8,10]),('rsa3072.p8',[8,10]),('rsa768.p8',[5,8,10]),('dsa1024a.p8',[3]),('dsa512a.p8',[3]),('dsa768a.p8',[3]),('p256a.p8',[13]),('p384a.p8',[14]),('ed25519a.p8',[15]),('ed448a.raw',[16])]:
    der,pub=key(kn)
    for alg in algs:
        # several for the ones with varying r,s lengths
        for i in range(6 if alg in (3,13,14) else 2):
            o,t,ttl,rds=sets[i%len(sets)]
            put(f'openssl-{kn.split(".")[0]}-{alg}-{i}',random.choice([256,257,0]),alg,pub,o,t,ttl,rds,1900000000+i,1700000000+i,o,signer(kn,alg,der))
B=base64.b64decode
ts=lambda s:int(datetime.datetime.strptime(s,'%Y%m%d%H%M%S').replace(tzinfo=datetime.timezone.utc).timestamp())
A=lambda s:bytes(map(int,s.split('.')))
put('rfc6605-p256',257,13,B('GojIhhXUN/u4v54ZQqGSnyhWJwaubCvTmeexv7bR6edbkrSqQpF64cYbcB7wNcP+e+MAnLr+Wi9xMWyQLc8NAA=='),'www.example.net.',1,3600,[A('192.0.2.1')],ts('20100909100439'),ts('20100812100439'),'example.net.',B('qx6wLYqmh+l9oCKTN6qIc+bw6ya+KJ8oMz0YP107epXAyGmt+3SNruPFKG7tZoLBLlUzGGus7ZwmwWep666VCw=='),55648)
put('rfc6605-p384',257,14,B('xKYaNhWdGOfJ+nPrL8/arkwf2EY3MDJ+SErKivBVSum1w/egsXvSADtNJhyem5RCOpgQ6K8X1DRSEkrbYQ+OB+v8/uX45NBwY8rp65F6Glur8I/mlVNgF6W/qTI37m40'),'www.example.net.',1,3600,[A('192.0.2.1')],ts('20100909102025'),ts('20100812102025'),'example.net.',B('/L5hDKIvGDyI1fcARX3z65qrmPsVz73QD1Mr5CEqOiLP95hxQouuroGCeZOvzFaxsT8Glr74hbavRKayJNuydCuzWTSSPdz7wnqXL5bdcJzusdnI0RSMROxxwGipWcJm'),10771)
put('rfc8080-ed25519',257,15,B('l02Woi0iS8Aa25FQkUd9RMzZHJpBoRQwAQEX1SxZJA4='),'example.com.',15,3600,[b'\0\x0a'+name('mail.example.com.')],1440021600,1438207200,'example.com.',B('oL9krJun7xfBOIWcGHi7mag5/hdZrKWw15jPGrHpjQeRAvTdszaPD+QLs3fx8A4M3e23mRZ9VrbpMngwcrqNAg=='),3613)
put('rfc8080-ed448',257,16,B('3kgROaDjrh0H2iuixWBrc8g2EpBBLCdGzHmn+G2MpTPhpj/OiBVHHSfPodx1FYYUcJKm1MDpJtIA'),'example.com.',15,3600,[b'\0\x0a'+name('mail.example.com.')],1440021600,1438207200,'example.com.',B('3cPAHkmlnxcDHMyg7vFC34l0blBhuG1qpwLmjInI8w1CMB29FkEAIJUA0amxWndkmnBZ6SKiwZSAxGILn/NBtOXft0+Gj7FSvOKxE/07+4RQvE581N3Aj/JtIyaiYVdnYtyMWbSNyGEY2213WKsJlwEA'),9713)
put('rfc5702-sha256',256,8,B('AwEAAcFcGsaxxdgiuuGmCkVImy4h99CqT7jwY3pexPGcnUFtR2Fh36BponcwtkZ4cAgtvd4Qs8PkxUdp6p/DlUmObdk='),'www.example.net.',1,3600,[A('192.0.2.91')],ts('20300101000000'),ts('20000101000000'),'example.net.',B('kRCOH6u7l0QGy9qpC9l1sLncJcOKFLJ7GhiUOibu4teYp5VE9RncriShZNz85mwlMgNEacFYK/lPtPiVYP4bwg=='),9033)
put('rfc5702-sha512',256,10,B('AwEAAdHoNTOW+et86KuJOWRDp1pndvwb6Y83nSVXXyLA3DLroROUkN6X0O6pnWnjJQujX/AyhqFDxj13tOnD9u/1kTg7cV6rklMrZDtJCQ5PCl/D7QNPsgVsMu1J2Q8gpMpztNFLpPBz1bWXjDtaR7ZQBlZ3PFY12ZTSncorffcGmhOL'),'www.example.net.',1,3600,[A('192.0.2.91')],ts('20300101000000'),ts('20000101000000'),'example.net.',B('tsb4wnjRUDnB1BUi+t6TMTXThjVnG+eCkWqjvvjhzQL1d0YRoOe0CbxrVDYd0xDtsuJRaeUw1ep94PzEWzr0iGYgZBWm/zpq+9fOuagYJRfDqfReKBzMweOLDiNa8iP5g9vMhpuv6OPlvpXwm9Sa9ZXIbNl1MBGk0fthPgxdDLw='),3740)
open(K+'vectors.txt','w').write('\n'.join(out)+'\n')
print(len(out))
