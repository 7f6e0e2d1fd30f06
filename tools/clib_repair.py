import struct,glob,os,sys
OUT=sys.argv[2]
os.makedirs(OUT,exist_ok=True)
for f in sorted(glob.glob(sys.argv[1]+'/*.o')):
    b=open(f,'rb').read()
    shoff=struct.unpack_from('<Q',b,0x28)[0]; n=struct.unpack_from('<H',b,0x3c)[0]; si=struct.unpack_from('<H',b,0x3e)[0]
    lost=shoff+64*n-len(b)
    S=[struct.unpack_from('<IIQQQQIIQQ',b,shoff-lost+64*i) for i in range(n)]
    stro=S[si][4]-lost
    nm=lambda s:b[stro+s[0]:b.find(b'\0',stro+s[0])].decode('latin1')
    nsym=[s[5]//24 for s in S if s[1]==2][0]
    secs=[(i,s) for i,s in enumerate(S) if s[1] not in (0,8) and s[5]>0]
    secs.sort(key=lambda t:t[1][4])
    out=bytearray(shoff+64*n); out[:64]=b[:64]
    def relaok(o,size,cnt=6):
        last=-1
        for k in range(min(cnt,size//24)):
            off,typ,sym,add=struct.unpack_from('<QIIq',b,o+24*k)
            if not (off>=last and off<1<<20 and typ in (1,2,4,9,10,11,41,42) and sym<nsym and abs(add)<1<<24): return False
            last=off
        return True
    cur=0; prev=None; info=[]
    for i,s in secs:
        name=nm(s); size=s[5]; t=None
        if name in('.debug_info','.debug_line'): t=lambda o: struct.unpack_from('<I',b,o)[0]==size-4
        elif name=='.debug_abbrev': t=lambda o:b[o:o+4]==b'\x01\x11\x01\x25'
        elif name=='.comment': t=lambda o:b[o:o+4]==b'\0Deb'
        elif name=='.symtab': t=lambda o:b[o:o+24]==bytes(24) and b[o+24:o+28]!=bytes(4)
        elif s[1]==4: t=lambda o:relaok(o,size)
        elif name=='.strtab': t=lambda o:o==stro
        elif name=='.eh_frame': t=lambda o:b[o:o+8]==bytes.fromhex('1400000000000000')
        sh=cur
        if t:
            for d in range(cur,lost+1):
                if t(s[4]-d): sh=d;break
            else: info.append(('??',name))
        if sh!=cur: info.append((prev,'lost',sh-cur))
        out[s[4]:s[4]+size]=b[s[4]-sh:s[4]-sh+size]
        if sh!=cur and prev_s: # previous copied too much: cut its tail
            ps=prev_s; ln=ps[5]-(sh-cur)
            out[ps[4]+ln:ps[4]+ps[5]]=bytes(sh-cur)
        cur=sh; prev=name; prev_s=s
    if cur!=lost: info.append((prev,'lost at end',lost-cur))
    out[shoff:]=b[shoff-lost:shoff-lost+64*n]
    # verify symtab/relocs
    bad=[]
    for i,s in secs:
        if s[1]==4:
            o=s[4]
            for k in range(s[5]//24):
                off,typ,sym,add=struct.unpack_from('<QIIq',out,o+24*k)
                if not(sym<nsym and typ in (1,2,4,9,10,11,41,42)): bad.append((nm(s),k,s[5]//24)); break
    
    if any(x[0]=='.rela.text' for x in bad) or 'ps2' in f: continue
    open(OUT+'/'+os.path.basename(f),'wb').write(out)
