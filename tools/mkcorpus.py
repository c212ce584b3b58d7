"""Collects realistic traffic from the repository's test data, once.

The result is committed, so that checks do not depend on the test data.
"""
import glob, json, os, io, gzip
R = '/repo/test/'
MARK_IN = b'======== BEGIN INBOUND STREAM ========\r\n'
MARK_OUT = b'======== BEGIN OUTBOUND STREAM ========\r\n'
conns = []
for p in sorted(glob.glob(R + 'combined_data/*')):
    d = open(p, 'rb').read()
    a = d.split(MARK_IN, 1)
    if len(a) != 2:
        continue
    b = a[1].split(MARK_OUT, 1)
    if len(b) != 2:
        continue
    name = os.path.basename(p)
    if len(b[0]) + len(b[1]) > 20000:
        print('skip', name, len(b[0]) + len(b[1]))
        continue
    conns.append([name, b[0].decode('latin-1'), b[1].decode('latin-1')])
hars = []
for p in sorted(glob.glob(R + 'har_data/*')):
    d = io.open(p, encoding='utf-8-sig').read()
    if len(d) > 60000:
        print('skip', p, len(d)); continue
    hars.append([os.path.basename(p), d])
dirs = []
for fmt in ('tcpflow', 'tcpick'):
    for p in sorted(glob.glob(R + fmt + '_data/*')):
        files = [[n, open(os.path.join(p, n), 'rb').read().decode('latin-1')]
                 for n in sorted(os.listdir(p))]
        size = sum(len(f[1]) for f in files)
        if size > 100000:
            print('skip', p, size); continue
        dirs.append([fmt, os.path.basename(p), files])
json.dump({'conns': conns, 'hars': hars, 'dirs': dirs},
          open('/verif/corpus/corpus.json', 'w'), indent=0)
print(len(conns), len(hars), len(dirs))
