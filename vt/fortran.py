"""Builds the Fortran HDF5 wrapper from the tree under test with a command interpreter around it."""
import glob, os, struct, subprocess
import numpy as np
from . import paths

TYPES = ["integer4", "integer8", "real", "double", "string"]
DECL = {"integer4": "integer*4", "integer8": "integer*8", "real": "real*4", "double": "real*8", "string": "character(len=slen)"}
NP = {"integer4": "i4", "integer8": "i8", "real": "f4", "double": "f8"}
NARG = 64


def driver_source():
    """A program which executes a script: per command a line of NARG integers, then the name; data in and out as raw bytes."""
    subs, dispatch = [], []
    for it, t in enumerate(TYPES):
        for rank in range(8):
            dims = ",".join("d(%d)" % (i + 1) for i in range(rank))
            colons = ",".join([":"] * rank)
            shape = "(%s)" % colons if rank else ""
            alloc = "(%s)" % dims if rank else ""
            wide = "(2*d(1)%s)" % "".join(",d(%d)" % (i + 1) for i in range(1, rank)) if rank else ""
            odd = "(1:2*d(1):2%s)" % (",:" * (rank - 1)) if rank else ""
            nm = "%s_%d" % (t, rank)
            decl = DECL[t] + ", allocatable :: a" + shape + ", b" + shape
            subs.append("""
subroutine do_%(nm)s(op, ifile, name, d, slen, stride)
  implicit none
  integer, intent(in) :: op, ifile, d(7), slen, stride
  character(len=*), intent(in) :: name
  %(decl)s
  allocate(a%(alloc)s)
  read(20) a
  if(stride.eq.1)then
     allocate(b%(wide)s)
     %(copyin)s
  endif
  select case(op)
  case(4)
     if(stride.eq.1)then
        call hdf5_write_data(ifile, name, b%(odd)s, gzip=gzip, overwrite=overwrite, extensible=extensible, &
             start=start, count=count, initial_size=initial_size, chunk_size=chunk_size)
     else
        call hdf5_write_data(ifile, name, a, gzip=gzip, overwrite=overwrite, extensible=extensible, &
             start=start, count=count, initial_size=initial_size, chunk_size=chunk_size)
     endif
  case(5)
     if(stride.eq.1)then
        call hdf5_read_data(ifile, name, b%(odd)s, start=start, count=count)
        a = b%(odd)s
     else
        call hdf5_read_data(ifile, name, a, start=start, count=count)
     endif
     write(21) a
  case(6)
     if(stride.eq.1)then
        call hdf5_write_attribute(ifile, name, b%(odd)s, overwrite=overwrite)
     else
        call hdf5_write_attribute(ifile, name, a, overwrite=overwrite)
     endif
  case(7)
     if(stride.eq.1)then
        call hdf5_read_attribute(ifile, name, b%(odd)s)
        a = b%(odd)s
     else
        call hdf5_read_attribute(ifile, name, a)
     endif
     write(21) a
  end select
end subroutine
""" % dict(nm=nm, decl=decl, alloc=alloc, wide=wide, odd=odd, copyin="b%s = a" % odd))
            dispatch.append("       case(%d)\n          call do_%s(op, slot(arg(2)), trim(name), arg(5:11), arg(42), arg(43))" % (it * 8 + rank, nm))
    return """
module ops
  use hdf5_wrapper
  implicit none
  integer, allocatable :: gzip
  logical, allocatable :: overwrite, extensible
  integer, allocatable :: start(:), count(:), initial_size(:), chunk_size(:)
contains
""" + "".join(subs) + """
end module

program driver
  use ops
  use hdf5
  implicit none
  integer :: op, arg(%(narg)d), slot(0:100), stat, i, n, rank, dims(20), size, na
  character(len=1000) :: name, script, datain, dataout
  character(len=32) :: dtype
  character(len=64), allocatable :: names(:)
  logical :: ro
  integer(hid_t) :: fid
  slot = -1
  call get_command_argument(1, script)
  call get_command_argument(2, datain)
  call get_command_argument(3, dataout)
  open(19, file=script, status="old")
  open(20, file=datain, access="stream", form="unformatted", status="old")
  open(21, file=dataout, access="stream", form="unformatted", status="replace")
  do
     read(19, *, iostat=stat) arg
     if(stat.ne.0) exit
     read(19, '(a)') name
     op = arg(1)
     ! optional arguments are absent if they are not allocated
     if(allocated(gzip)) deallocate(gzip)
     if(allocated(overwrite)) deallocate(overwrite)
     if(allocated(extensible)) deallocate(extensible)
     if(allocated(start)) deallocate(start)
     if(allocated(count)) deallocate(count)
     if(allocated(initial_size)) deallocate(initial_size)
     if(allocated(chunk_size)) deallocate(chunk_size)
     if(arg(12).ge.0) gzip = arg(12)
     if(arg(13).ge.0) overwrite = arg(13).eq.1
     if(arg(14).ge.0) extensible = arg(14).eq.1
     if(arg(15).ge.0) allocate(start(arg(15)), source=arg(16:15+arg(15)))
     if(arg(23).ge.0) allocate(count(arg(23)), source=arg(24:23+arg(23)))
     if(arg(31).ge.0) allocate(initial_size(arg(31)), source=arg(32:31+arg(31)))
     if(arg(44).ge.0) allocate(chunk_size(arg(44)), source=arg(45:44+arg(44)))
     select case(op)
     case(1)
        if(arg(3).lt.0)then
           call hdf5_open_file(slot(arg(2)), trim(name))
        else
           ro = arg(3).eq.1
           call hdf5_open_file(slot(arg(2)), trim(name), readonly=ro)
        endif
     case(2)
        call hdf5_create_file(slot(arg(2)), trim(name))
     case(3)
        call hdf5_close_file(slot(arg(2)))
        slot(arg(2)) = merge(-1, slot(arg(2)), arg(3).eq.0)
     case(4:7)
       select case(arg(3)*8 + arg(4))
%(dispatch)s
       end select
     case(8)
        call hdf5_create_group(slot(arg(2)), trim(name))
     case(9)
        dims = -7
        call hdf5_get_dimensions(slot(arg(2)), trim(name), rank, dims)
        write(21) rank, dims(1:8)
     case(10)
        call hdf5_get_type(slot(arg(2)), trim(name), dtype, size)
        write(21) dtype, size
     case(11:13)
        if(arg(3).gt.0)then
           allocate(names(arg(3)))
           names = "?"
           if(op.eq.11) call hdf5_list_datasets(slot(arg(2)), trim(name), n, names)
           if(op.eq.12) call hdf5_list_groups(slot(arg(2)), trim(name), n, names)
           if(op.eq.13) call hdf5_list_attributes(slot(arg(2)), trim(name), n, names)
           write(21) n, names
           deallocate(names)
        else
           if(op.eq.11) call hdf5_list_datasets(slot(arg(2)), trim(name), n)
           if(op.eq.12) call hdf5_list_groups(slot(arg(2)), trim(name), n)
           if(op.eq.13) call hdf5_list_attributes(slot(arg(2)), trim(name), n)
           write(21) n
        endif
     case(14)
        fid = hdf5_get_file_id(slot(arg(2)))
        write(21) merge(1, 0, fid.ge.0)
     end select
     write(21) "DONE"
     flush(21)
  end do
  write(21) "EXIT"
end program
""" % {"narg": NARG, "dispatch": "\n".join(dispatch)}


_exe = {}
INC = "/usr/include/hdf5/serial"
LIB = "/usr/lib/x86_64-linux-gnu/hdf5/serial"


class BuildError(Exception):
    pass


def build():
    """Compile the wrapper sources of the tree under test and the interpreter; returns the executable's path."""
    if "exe" in _exe:
        return _exe["exe"]
    d = os.path.join(paths.scratch(), "fortran")
    os.makedirs(d, exist_ok=True)
    src = os.path.join(paths.REPO, "fortran/hdf5_wrapper/src")
    with open(os.path.join(d, "FC.h"), "w") as f:
        f.write("#define FC_GLOBAL(name,NAME) name##_\n#define FC_GLOBAL_(name,NAME) name##_\n")
    with open(os.path.join(d, "driver.f90"), "w") as f:
        f.write(driver_source())

    def run(cmd):
        r = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
        if r.returncode:
            raise BuildError(" ".join(cmd) + "\n" + r.stdout.decode(errors="replace")[-3000:])
    objs = []
    for c in sorted(glob.glob(os.path.join(src, "*.c"))):
        run(["/usr/bin/gcc", "-w", "-g", "-I" + INC, "-I" + d, "-c", c])
        objs.append(os.path.basename(c)[:-2] + ".o")
    fflags = ["-O0", "-g", "-w", "-fallow-argument-mismatch", "-I" + INC, "-I" + src, "-ffree-line-length-none"]
    for c in sorted(glob.glob(os.path.join(src, "*.F90"))):
        run(["/usr/bin/gfortran"] + fflags + ["-c", c])
        objs.append(os.path.basename(c)[:-4] + ".o")
    exe = os.path.join(d, "driver")
    run(["/usr/bin/gfortran"] + fflags + ["-o", exe, "driver.f90"] + objs + ["-L" + LIB, "-Wl,-rpath," + LIB, "-lhdf5_fortran", "-lhdf5"])
    _exe["exe"] = exe
    return exe


class Script:
    """Accumulates commands, runs them, and gives back each command's output."""

    def __init__(self):
        self.lines, self.data, self.reply = [], [], []

    def add(self, op, slot=0, name="", type=0, rank=0, dims=(), gzip=None, overwrite=None, extensible=None, start=None, count=None,
            initial_size=None, chunk_size=None, slen=1, stride=False, flag=None, data=None, reply=0):
        a = [0] * NARG
        a[0], a[1], a[2], a[3] = op, slot, type, rank
        if flag is not None:
            a[2] = flag
        for i, x in enumerate(dims):
            a[4 + i] = x
        a[11] = -1 if gzip is None else gzip
        a[12] = -1 if overwrite is None else int(overwrite)
        a[13] = -1 if extensible is None else int(extensible)
        for base, v in ((14, start), (22, count), (30, initial_size), (43, chunk_size)):
            a[base] = -1 if v is None else len(v)
            for i, x in enumerate(v or ()):
                a[base + 1 + i] = x
        a[41], a[42] = slen, int(stride)
        self.lines.append(" ".join(map(str, a)) + "\n" + name + "\n")
        if data is not None:
            self.data.append(data)
        self.reply.append(reply)

    def run(self, exe, cwd):
        with open(os.path.join(cwd, "script"), "w") as f:
            f.write("".join(self.lines))
        with open(os.path.join(cwd, "in.bin"), "wb") as f:
            f.write(b"".join(self.data))
        r = subprocess.run([exe, "script", "in.bin", "out.bin"], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        out = open(os.path.join(cwd, "out.bin"), "rb").read()
        replies, pos = [], 0
        for n in self.reply:
            if out[pos + n:pos + n + 4] != b"DONE":
                break
            replies.append(out[pos:pos + n])
            pos += n + 4
        return Result(replies, r.returncode, r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace"), len(self.reply))


class Result:
    def __init__(self, replies, rc, out, err, n):
        self.replies, self.rc, self.out, self.err, self.n = replies, rc, out, err, n
        self.aborted = "***Abort HDF5" in out
        self.complete = len(replies) == n and not self.aborted

    def what(self):
        return "after %d of %d commands, status %d: %s %s" % (len(self.replies), self.n, self.rc, " ".join(self.out.split())[-400:], self.err[-400:])
