"""Which instruction-set extension does an instruction belong to?"""
import re

SSSE3 = {'pshufb', 'palignr', 'phaddw', 'phaddd', 'phaddsw', 'phsubw', 'phsubd', 'phsubsw', 'pmaddubsw', 'pmulhrsw'}
SSE3 = {'lddqu', 'movddup', 'movshdup', 'movsldup', 'addsubps', 'addsubpd', 'haddps', 'haddpd', 'hsubps', 'hsubpd'}
SSE41 = {'pblendw', 'pblendvb', 'blendps', 'blendpd', 'blendvps', 'blendvpd', 'pinsrd', 'pinsrq', 'pinsrb', 'pextrd',
         'pextrq', 'pextrb', 'pmulld', 'pmuldq', 'ptest', 'pminud', 'pminuw', 'pminsb', 'pminsd', 'pmaxud', 'pmaxuw',
         'pmaxsb', 'pmaxsd', 'movntdqa', 'insertps', 'extractps', 'packusdw', 'pcmpeqq', 'dpps', 'dppd', 'mpsadbw',
         'phminposuw'}
SSE42 = {'pcmpgtq', 'pcmpestri', 'pcmpestrm', 'pcmpistri', 'pcmpistrm', 'crc32'}
BMI2 = {'rorx', 'mulx', 'pdep', 'pext', 'bzhi', 'sarx', 'shlx', 'shrx'}
BMI1 = {'andn', 'bextr', 'blsi', 'blsr', 'blsmsk', 'tzcnt'}
MISC = {'movbe': 'MOVBE', 'adcx': 'ADX', 'adox': 'ADX', 'popcnt': 'POPCNT', 'lzcnt': 'LZCNT', 'rdrand': 'RDRAND',
        'rdseed': 'RDSEED', 'pclmulqdq': 'PCLMUL', 'xgetbv': 'XSAVE', 'cmpxchg16b': 'CX16'}
AVX2_ANY = {'vbroadcasti128', 'vperm2i128', 'vinserti128', 'vextracti128', 'vpermd', 'vpermq', 'vpermps', 'vpermpd',
            'vpbroadcastb', 'vpbroadcastw', 'vpbroadcastd', 'vpbroadcastq', 'vpsllvd', 'vpsllvq', 'vpsrlvd', 'vpsrlvq',
            'vpsravd', 'vpblendd', 'vpmaskmovd', 'vpmaskmovq'}
# each extension and everything that every processor having it also has
IMPLIES = {
    'SHA': {'SSE4.1', 'SSSE3', 'SSE3'},
    'AVX2': {'AVX', 'SSE4.2', 'SSE4.1', 'SSSE3', 'SSE3', 'POPCNT'},
    'AVX': {'SSE4.2', 'SSE4.1', 'SSSE3', 'SSE3', 'POPCNT'},
    'SSE3': set(),
}


def extension(mn, ops):
    """name of the extension beyond baseline x86-64 (SSE2), or None"""
    allops = ' '.join(ops)
    if mn in MISC:
        return MISC[mn]
    if mn in BMI2:
        return 'BMI2'
    if mn in BMI1:
        return 'BMI1'
    if mn.startswith('sha1') or mn.startswith('sha256'):
        return 'SHA'
    if mn.startswith('aes') or mn.startswith('vaes'):
        return 'AES'
    if 'zmm' in allops or re.search(r'\bk[0-7]\b', allops) or '{' in allops or re.search(r'[xy]mm(1[6-9]|2\d|3[01])', allops):
        return 'AVX512'
    if mn.startswith('v') and mn not in ('verr', 'verw'):
        if mn.startswith(('vfmadd', 'vfnmadd', 'vfmsub', 'vfnmsub')):
            return 'FMA'
        if mn.startswith(('vpro', 'vpternlog', 'vpermi2', 'vpermt2', 'vpsraq')):
            return 'AVX512'
        if mn in AVX2_ANY or mn.startswith(('vpgather', 'vgather')):
            return 'AVX2'
        if mn in ('vbroadcastss', 'vbroadcastsd') and '[' not in allops:
            return 'AVX2'
        if 'ymm' in allops and (mn.startswith('vp') or mn in ('vmpsadbw', 'vmovntdqa')) and mn not in ('vptest', 'vpermilps', 'vpermilpd'):
            return 'AVX2'
        return 'AVX'
    if 'mm' in allops:
        if mn in SSSE3 or mn.startswith(('pabs', 'psign')):
            return 'SSSE3'
        if mn in SSE3:
            return 'SSE3'
        if mn in SSE41 or mn.startswith(('pmovzx', 'pmovsx', 'round')):
            return 'SSE4.1'
        if mn in SSE42:
            return 'SSE4.2'
    if mn == 'crc32':
        return 'SSE4.2'
    return None


def allowed(reported):
    out = set(reported)
    for r in reported:
        out |= IMPLIES.get(r, set())
    return out
