BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


bug("c38-kept-handle", "C38",
    [("template.py", "        self.binimage = ('FLUX' in sed_hdus) & ('WAVE' in sed_hdus)\n",
      "        self._hdus = sed_hdus\n        self.binimage = ('FLUX' in self._hdus) & ('WAVE' in self._hdus)\n")],
    "many spectra read from files and kept",
    "every one keeps its file open",
    '''
d = scratch()
kcorrect.template.SED(wave=np.linspace(3000., 9000., 50), flux=np.ones(50), interpolate=False).tofits(d + "/s.fits")
n = len(os.listdir("/proc/self/fd"))
keep = [kcorrect.template.SED(filename=d + "/s.fits", interpolate=False) for i in range(20)]
expect(len(os.listdir("/proc/self/fd")) < n + 10, "20 spectra hold %d files open" % (len(os.listdir("/proc/self/fd")) - n))
''')

bug("c38-mapped-masses", "C38",
    [("template.py", "            self.m50 = hdul['M50'].data\n", "            self.m50 = fits.getdata(filename, 'M50')\n"),
     ("template.py", "        self.m300 = hdul['M300'].data\n", "        self.m300 = fits.getdata(filename, 'M300')\n")],
    "a template file that is rewritten in place while the templates are in use",
    "the masses formed change with the file",
    '''
import shutil
d = scratch()
t = kcorrect.template.Template(filename=os.path.join(kcorrect.KCORRECT_DIR, "data", "templates", "kcorrect-default-v4.fits"))
t.tofits(d + "/a.fits")
t.m300 = t.m300 * 3
t.tofits(d + "/b.fits")
a = kcorrect.template.Template(filename=d + "/a.fits")
old = np.array(a.m300)
with open(d + "/b.fits", "rb") as g, open(d + "/a.fits", "r+b") as h:
    h.write(g.read())
close(a.m300, old, "m300 after the file was rewritten", rtol=1e-6)
''')

bug("c38-late-redshifts", "C38",
    [("kcorrect.py", "        self.redshifts = hdul['REDSHIFTS'].data\n", "        self.redshifts = fits.getdata(filename, 'REDSHIFTS')\n")],
    "a saved object whose file is rewritten in place after reading it",
    "its redshift grid becomes that of the new file",
    '''
def save(p, z):
    kc(redshift_range=[0., z], nredshift=3, responses=SDSS[:2], templates=kcorrect.template.Template(
        filename=os.path.join(kcorrect.KCORRECT_DIR, "data", "templates", "kcorrect-default-v4.fits"))).tofits(p)
d = scratch()
save(d + "/a.fits", .2)
save(d + "/b.fits", .4)
k = kcorrect.kcorrect.Kcorrect(filename=d + "/a.fits")
with open(d + "/b.fits", "rb") as g, open(d + "/a.fits", "r+b") as h:
    h.write(g.read())
close(k.redshifts, [0., .1, .2], "redshifts after the file was rewritten", rtol=1e-5)
''')
