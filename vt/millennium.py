"""Builds the Millennium Fortran routines and example programs, and a driver for the routines."""
import os, re, subprocess
import numpy as np
from . import paths
from .util import check as ck

DRIVER = """
program driver
  use readfilemod
  use readgroupsmod
  use readregionmod
  implicit none
  character(len=500) :: basedir, basename
  integer :: nop, iop, op, isnap, ifile, nfile, nhash, i
  integer :: a, b, c, d, e, first, last
  integer, pointer :: i1(:), i2(:), i3(:), i4(:), i5(:)
  integer*8, pointer :: ids(:)
  integer*8, allocatable :: id(:)
  integer, allocatable :: table(:), flag(:)
  logical, allocatable :: map(:)
  real, allocatable :: pos(:,:), vel(:,:)
  real, pointer :: x(:), y(:), z(:), vx(:), vy(:), vz(:)
  type (headertype) :: h
  type (subhalotype), pointer :: sub(:)
  type (halotype), pointer :: halo(:)
  open(unit=20, file="in.bin", access="stream", form="unformatted", convert="native", status="old", action="read")
  open(unit=21, file="out.bin", access="stream", form="unformatted", convert="native", status="replace")
  read(20) basedir, basename, nop
  do iop = 1, nop
     read(20) op, isnap, ifile
     nullify(i1, i2, i3, i4, i5, ids, x, y, z, vx, vy, vz, sub, halo)
     select case(op)
     case(1)
        call readheader(basedir, basename, isnap, ifile, h)
        write(21) h%npart, h%mass, h%time, h%redshift, h%flag_sfr, h%flag_feedback, h%nparttotal, h%flag_cooling, h%numfiles, &
             h%boxsize, h%omega0, h%omegalambda, h%hubbleparam, h%flag_stellarage, h%flag_metals, h%hashtabsize
     case(2)
        call readheader(basedir, basename, isnap, ifile, h)
        allocate(pos(3,h%npart(2)+1), vel(3,h%npart(2)+1), id(h%npart(2)+1), table(h%hashtabsize+1))
        pos = -1
        vel = -1
        id = -1
        table = -1
        call readfile(basedir, basename, isnap, ifile, h, first, last, table, pos, vel, id)
        write(21) h%npart(2), first, last, pos, vel, id, table
        deallocate(pos, vel, id, table)
     case(3)
        call readgrouptab(basedir, isnap, ifile, a, b, c, d, i1, i2)
        write(21) a, b, c, d, size(i1), size(i2), i1, i2
        deallocate(i1, i2)
     case(4)
        call readgroupids(basedir, isnap, ifile, a, b, c, d, ids)
        write(21) a, b, c, d, size(ids), ids
        deallocate(ids)
     case(5)
        call readsubtab(basedir, isnap, ifile, a, e, b, c, d, i1, i2, i3, i4, i5)
        write(21) a, e, b, c, d, size(i1), size(i2), size(i3), size(i4), size(i5), i1, i2, i3, i4, i5
        deallocate(i1, i2, i3, i4, i5)
     case(6)
        call readsubids(basedir, isnap, ifile, a, b, c, d, ids)
        write(21) a, b, c, d, size(ids), ids
        deallocate(ids)
     case(7)
        call readsubhalos(basedir, isnap, ifile, a, e, b, c, d, halo, sub)
        write(21) a, e, b, c, d, size(halo), size(sub)
        write(21) halo%nsubgroups, halo%firstsubgroup, sub%len, sub%offset, sub%parent, halo%mmean200, halo%rmean200, &
             halo%mcrit200, halo%rcrit200, halo%mtophat200, halo%rtophat200
        write(21) (sub(i)%pos, i=1,size(sub)), (sub(i)%vel, i=1,size(sub)), sub%veldisp, sub%vmax, (sub(i)%spin, i=1,size(sub)), &
             sub%mostboundid, sub%halfmass
        deallocate(halo, sub)
     case(8)
        read(20) nfile, nhash
        allocate(flag(nhash), map(0:nhash-1))
        read(20) flag
        map = (flag.ne.0)
        call readregion(basedir, basename, isnap, nhash, map, nfile, a, x, y, z, vx, vy, vz, ids)
        write(21) a, size(x), size(y), size(z), size(vx), size(vy), size(vz), size(ids), x, y, z, vx, vy, vz, ids
        deallocate(flag, map, x, y, z, vx, vy, vz, ids)
     end select
     write(21) "DONE"
     flush(21)
  end do
end program
"""
PROGRAMS = {"readregionexample": ["peano_keys", "readregion", "readparticles"],
            "readgroupsexample": ["sort", "peano_keys", "readgroups", "readregion", "readparticles"],
            "readsubhalosexample": ["readgroups"], "readfileexample": ["readfile"],
            "readfofgroupsexample": ["sort", "readfile", "peano_keys", "readgroups", "readregion", "readparticles"]}
built = {}
SRC = os.path.join(paths.REPO, "examples", "millennium", "fortran")


def source(name, d):
    """The source, with a blank after STOP where current compilers demand one (a known finding)."""
    with open(os.path.join(SRC, name)) as f:
        text = f.read()
    fn = os.path.join(d, name)
    with open(fn, "w") as f:
        f.write(re.sub(r"""(?i)\b(stop)(['"])""", r"\1 \2", text))
    return fn


def compiles(flags, *names):
    """Whether the sources compile as they are"""
    d = paths.fresh_dir("asis")
    try:
        for n in names:
            r = subprocess.run(["/usr/bin/gfortran", "-w"] + flags + ["-c", os.path.join(SRC, n)], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            ck(r.returncode == 0, n + ": " + r.stdout.decode(errors="replace")[-1000:])
    finally:
        paths.drop(d)


def build():
    """Both for files in the byte order of this machine and in the other one"""
    src = SRC
    procs = []
    for endian, fflags, cflags in (("<", [], []), (">", ["-fconvert=big-endian"], ["-DBYTESWAP"])):
        d = paths.fresh_dir("mill")
        with open(os.path.join(d, "driver.f90"), "w") as f:
            f.write(DRIVER)
        lines = ["set -e"]
        for c in ("peano_keys", "readparticles"):
            lines.append("gcc -w -g -O2 %s -c %s/%s.c" % (" ".join(cflags), src, c))
        ff = "gfortran -w -g -O2 " + " ".join(fflags)
        for f in ("file_path", "sort", "readfile", "readgroups", "readregion"):
            source(f + ".f90", d)
            lines.append("%s -c %s.f90" % (ff, f))
        lines.append("%s -ffree-line-length-none driver.f90 file_path.o readfile.o readgroups.o readregion.o readparticles.o -o driver" % ff)
        for p, objs in PROGRAMS.items():
            # static variables: the programs use pointers which they did not nullify (a known finding)
            source(p + ".f90", d)
            lines.append("%s -fno-automatic %s.f90 file_path.o %s -o %s" % (ff, p, " ".join(o + ".o" for o in objs), p))
        lines.append("%s readgroupsexample.f90 file_path.o %s -o automatic" % (ff, " ".join(o + ".o" for o in PROGRAMS["readgroupsexample"])))
        procs.append((subprocess.Popen(["/bin/sh", "-c", "\n".join(lines)], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT), d, endian))
    for p, d, endian in procs:
        out = p.communicate()[0].decode(errors="replace")
        ck(p.returncode == 0, "the Millennium routines do not compile: " + out[-3000:])
        built[endian] = d


def run(exe, cwd, text=""):
    return subprocess.run([exe], cwd=cwd, input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)


class Stream:
    """Reads back what the driver wrote"""
    def __init__(self, data):
        self.data, self.pos = data, 0

    def get(self, dtype, n=None, shape=None):
        dt = np.dtype(dtype)
        k = 1 if n is None else int(n)
        ck(k >= 0 and self.pos + k * dt.itemsize <= len(self.data), "the driver wrote too little")
        a = np.frombuffer(self.data, dt, k, self.pos)
        self.pos += k * dt.itemsize
        return a[0] if n is None else a.reshape(shape) if shape else a

    def done(self):
        ck(self.data[self.pos:self.pos + 4] == b"DONE", "the driver stopped or returned arrays of other sizes")
        self.pos += 4
