// Code generated by shimgen. DO NOT EDIT.

package syscall

import (
	"simmod/simrt"
	real "syscall"
)

var _ = simrt.Cur

const AF_ALG = real.AF_ALG
const AF_APPLETALK = real.AF_APPLETALK
const AF_ASH = real.AF_ASH
const AF_ATMPVC = real.AF_ATMPVC
const AF_ATMSVC = real.AF_ATMSVC
const AF_AX25 = real.AF_AX25
const AF_BLUETOOTH = real.AF_BLUETOOTH
const AF_BRIDGE = real.AF_BRIDGE
const AF_CAIF = real.AF_CAIF
const AF_CAN = real.AF_CAN
const AF_DECnet = real.AF_DECnet
const AF_ECONET = real.AF_ECONET
const AF_FILE = real.AF_FILE
const AF_IEEE802154 = real.AF_IEEE802154
const AF_INET = real.AF_INET
const AF_INET6 = real.AF_INET6
const AF_IPX = real.AF_IPX
const AF_IRDA = real.AF_IRDA
const AF_ISDN = real.AF_ISDN
const AF_IUCV = real.AF_IUCV
const AF_KEY = real.AF_KEY
const AF_LLC = real.AF_LLC
const AF_LOCAL = real.AF_LOCAL
const AF_MAX = real.AF_MAX
const AF_NETBEUI = real.AF_NETBEUI
const AF_NETLINK = real.AF_NETLINK
const AF_NETROM = real.AF_NETROM
const AF_PACKET = real.AF_PACKET
const AF_PHONET = real.AF_PHONET
const AF_PPPOX = real.AF_PPPOX
const AF_RDS = real.AF_RDS
const AF_ROSE = real.AF_ROSE
const AF_ROUTE = real.AF_ROUTE
const AF_RXRPC = real.AF_RXRPC
const AF_SECURITY = real.AF_SECURITY
const AF_SNA = real.AF_SNA
const AF_TIPC = real.AF_TIPC
const AF_UNIX = real.AF_UNIX
const AF_UNSPEC = real.AF_UNSPEC
const AF_WANPIPE = real.AF_WANPIPE
const AF_X25 = real.AF_X25
const ARPHRD_ADAPT = real.ARPHRD_ADAPT
const ARPHRD_APPLETLK = real.ARPHRD_APPLETLK
const ARPHRD_ARCNET = real.ARPHRD_ARCNET
const ARPHRD_ASH = real.ARPHRD_ASH
const ARPHRD_ATM = real.ARPHRD_ATM
const ARPHRD_AX25 = real.ARPHRD_AX25
const ARPHRD_BIF = real.ARPHRD_BIF
const ARPHRD_CHAOS = real.ARPHRD_CHAOS
const ARPHRD_CISCO = real.ARPHRD_CISCO
const ARPHRD_CSLIP = real.ARPHRD_CSLIP
const ARPHRD_CSLIP6 = real.ARPHRD_CSLIP6
const ARPHRD_DDCMP = real.ARPHRD_DDCMP
const ARPHRD_DLCI = real.ARPHRD_DLCI
const ARPHRD_ECONET = real.ARPHRD_ECONET
const ARPHRD_EETHER = real.ARPHRD_EETHER
const ARPHRD_ETHER = real.ARPHRD_ETHER
const ARPHRD_EUI64 = real.ARPHRD_EUI64
const ARPHRD_FCAL = real.ARPHRD_FCAL
const ARPHRD_FCFABRIC = real.ARPHRD_FCFABRIC
const ARPHRD_FCPL = real.ARPHRD_FCPL
const ARPHRD_FCPP = real.ARPHRD_FCPP
const ARPHRD_FDDI = real.ARPHRD_FDDI
const ARPHRD_FRAD = real.ARPHRD_FRAD
const ARPHRD_HDLC = real.ARPHRD_HDLC
const ARPHRD_HIPPI = real.ARPHRD_HIPPI
const ARPHRD_HWX25 = real.ARPHRD_HWX25
const ARPHRD_IEEE1394 = real.ARPHRD_IEEE1394
const ARPHRD_IEEE802 = real.ARPHRD_IEEE802
const ARPHRD_IEEE80211 = real.ARPHRD_IEEE80211
const ARPHRD_IEEE80211_PRISM = real.ARPHRD_IEEE80211_PRISM
const ARPHRD_IEEE80211_RADIOTAP = real.ARPHRD_IEEE80211_RADIOTAP
const ARPHRD_IEEE802154 = real.ARPHRD_IEEE802154
const ARPHRD_IEEE802154_PHY = real.ARPHRD_IEEE802154_PHY
const ARPHRD_IEEE802_TR = real.ARPHRD_IEEE802_TR
const ARPHRD_INFINIBAND = real.ARPHRD_INFINIBAND
const ARPHRD_IPDDP = real.ARPHRD_IPDDP
const ARPHRD_IPGRE = real.ARPHRD_IPGRE
const ARPHRD_IRDA = real.ARPHRD_IRDA
const ARPHRD_LAPB = real.ARPHRD_LAPB
const ARPHRD_LOCALTLK = real.ARPHRD_LOCALTLK
const ARPHRD_LOOPBACK = real.ARPHRD_LOOPBACK
const ARPHRD_METRICOM = real.ARPHRD_METRICOM
const ARPHRD_NETROM = real.ARPHRD_NETROM
const ARPHRD_NONE = real.ARPHRD_NONE
const ARPHRD_PIMREG = real.ARPHRD_PIMREG
const ARPHRD_PPP = real.ARPHRD_PPP
const ARPHRD_PRONET = real.ARPHRD_PRONET
const ARPHRD_RAWHDLC = real.ARPHRD_RAWHDLC
const ARPHRD_ROSE = real.ARPHRD_ROSE
const ARPHRD_RSRVD = real.ARPHRD_RSRVD
const ARPHRD_SIT = real.ARPHRD_SIT
const ARPHRD_SKIP = real.ARPHRD_SKIP
const ARPHRD_SLIP = real.ARPHRD_SLIP
const ARPHRD_SLIP6 = real.ARPHRD_SLIP6
const ARPHRD_TUNNEL = real.ARPHRD_TUNNEL
const ARPHRD_TUNNEL6 = real.ARPHRD_TUNNEL6
const ARPHRD_VOID = real.ARPHRD_VOID
const ARPHRD_X25 = real.ARPHRD_X25

var Accept = simrt.UnsupFunc(real.Accept, "syscall.Accept")
var Accept4 = simrt.UnsupFunc(real.Accept4, "syscall.Accept4")
var Access = simrt.UnsupFunc(real.Access, "syscall.Access")
var Acct = simrt.UnsupFunc(real.Acct, "syscall.Acct")
var Adjtimex = simrt.UnsupFunc(real.Adjtimex, "syscall.Adjtimex")
var AllThreadsSyscall = simrt.UnsupFunc(real.AllThreadsSyscall, "syscall.AllThreadsSyscall")
var AllThreadsSyscall6 = simrt.UnsupFunc(real.AllThreadsSyscall6, "syscall.AllThreadsSyscall6")
var AttachLsf = simrt.UnsupFunc(real.AttachLsf, "syscall.AttachLsf")

const B0 = real.B0
const B1000000 = real.B1000000
const B110 = real.B110
const B115200 = real.B115200
const B1152000 = real.B1152000
const B1200 = real.B1200
const B134 = real.B134
const B150 = real.B150
const B1500000 = real.B1500000
const B1800 = real.B1800
const B19200 = real.B19200
const B200 = real.B200
const B2000000 = real.B2000000
const B230400 = real.B230400
const B2400 = real.B2400
const B2500000 = real.B2500000
const B300 = real.B300
const B3000000 = real.B3000000
const B3500000 = real.B3500000
const B38400 = real.B38400
const B4000000 = real.B4000000
const B460800 = real.B460800
const B4800 = real.B4800
const B50 = real.B50
const B500000 = real.B500000
const B57600 = real.B57600
const B576000 = real.B576000
const B600 = real.B600
const B75 = real.B75
const B921600 = real.B921600
const B9600 = real.B9600
const BPF_A = real.BPF_A
const BPF_ABS = real.BPF_ABS
const BPF_ADD = real.BPF_ADD
const BPF_ALU = real.BPF_ALU
const BPF_AND = real.BPF_AND
const BPF_B = real.BPF_B
const BPF_DIV = real.BPF_DIV
const BPF_H = real.BPF_H
const BPF_IMM = real.BPF_IMM
const BPF_IND = real.BPF_IND
const BPF_JA = real.BPF_JA
const BPF_JEQ = real.BPF_JEQ
const BPF_JGE = real.BPF_JGE
const BPF_JGT = real.BPF_JGT
const BPF_JMP = real.BPF_JMP
const BPF_JSET = real.BPF_JSET
const BPF_K = real.BPF_K
const BPF_LD = real.BPF_LD
const BPF_LDX = real.BPF_LDX
const BPF_LEN = real.BPF_LEN
const BPF_LSH = real.BPF_LSH
const BPF_MAJOR_VERSION = real.BPF_MAJOR_VERSION
const BPF_MAXINSNS = real.BPF_MAXINSNS
const BPF_MEM = real.BPF_MEM
const BPF_MEMWORDS = real.BPF_MEMWORDS
const BPF_MINOR_VERSION = real.BPF_MINOR_VERSION
const BPF_MISC = real.BPF_MISC
const BPF_MSH = real.BPF_MSH
const BPF_MUL = real.BPF_MUL
const BPF_NEG = real.BPF_NEG
const BPF_OR = real.BPF_OR
const BPF_RET = real.BPF_RET
const BPF_RSH = real.BPF_RSH
const BPF_ST = real.BPF_ST
const BPF_STX = real.BPF_STX
const BPF_SUB = real.BPF_SUB
const BPF_TAX = real.BPF_TAX
const BPF_TXA = real.BPF_TXA
const BPF_W = real.BPF_W
const BPF_X = real.BPF_X
const BRKINT = real.BRKINT

var Bind = simrt.UnsupFunc(real.Bind, "syscall.Bind")
var BindToDevice = simrt.UnsupFunc(real.BindToDevice, "syscall.BindToDevice")
var BytePtrFromString = real.BytePtrFromString
var ByteSliceFromString = real.ByteSliceFromString

const CLOCAL = real.CLOCAL
const CLONE_CHILD_CLEARTID = real.CLONE_CHILD_CLEARTID
const CLONE_CHILD_SETTID = real.CLONE_CHILD_SETTID
const CLONE_CLEAR_SIGHAND = real.CLONE_CLEAR_SIGHAND
const CLONE_DETACHED = real.CLONE_DETACHED
const CLONE_FILES = real.CLONE_FILES
const CLONE_FS = real.CLONE_FS
const CLONE_INTO_CGROUP = real.CLONE_INTO_CGROUP
const CLONE_IO = real.CLONE_IO
const CLONE_NEWCGROUP = real.CLONE_NEWCGROUP
const CLONE_NEWIPC = real.CLONE_NEWIPC
const CLONE_NEWNET = real.CLONE_NEWNET
const CLONE_NEWNS = real.CLONE_NEWNS
const CLONE_NEWPID = real.CLONE_NEWPID
const CLONE_NEWTIME = real.CLONE_NEWTIME
const CLONE_NEWUSER = real.CLONE_NEWUSER
const CLONE_NEWUTS = real.CLONE_NEWUTS
const CLONE_PARENT = real.CLONE_PARENT
const CLONE_PARENT_SETTID = real.CLONE_PARENT_SETTID
const CLONE_PIDFD = real.CLONE_PIDFD
const CLONE_PTRACE = real.CLONE_PTRACE
const CLONE_SETTLS = real.CLONE_SETTLS
const CLONE_SIGHAND = real.CLONE_SIGHAND
const CLONE_SYSVSEM = real.CLONE_SYSVSEM
const CLONE_THREAD = real.CLONE_THREAD
const CLONE_UNTRACED = real.CLONE_UNTRACED
const CLONE_VFORK = real.CLONE_VFORK
const CLONE_VM = real.CLONE_VM
const CREAD = real.CREAD
const CS5 = real.CS5
const CS6 = real.CS6
const CS7 = real.CS7
const CS8 = real.CS8
const CSIZE = real.CSIZE
const CSTOPB = real.CSTOPB

var Chdir = simrt.UnsupFunc(real.Chdir, "syscall.Chdir")
var Chmod = simrt.UnsupFunc(real.Chmod, "syscall.Chmod")
var Chown = simrt.UnsupFunc(real.Chown, "syscall.Chown")
var Chroot = simrt.UnsupFunc(real.Chroot, "syscall.Chroot")
var Clearenv = simrt.UnsupFunc(real.Clearenv, "syscall.Clearenv")
var Close = simrt.UnsupFunc(real.Close, "syscall.Close")
var CloseOnExec = simrt.UnsupFunc(real.CloseOnExec, "syscall.CloseOnExec")
var CmsgLen = simrt.UnsupFunc(real.CmsgLen, "syscall.CmsgLen")
var CmsgSpace = simrt.UnsupFunc(real.CmsgSpace, "syscall.CmsgSpace")

type Cmsghdr = real.Cmsghdr
type Conn = real.Conn

var Connect = simrt.UnsupFunc(real.Connect, "syscall.Connect")
var Creat = simrt.UnsupFunc(real.Creat, "syscall.Creat")

type Credential = real.Credential

const DT_BLK = real.DT_BLK
const DT_CHR = real.DT_CHR
const DT_DIR = real.DT_DIR
const DT_FIFO = real.DT_FIFO
const DT_LNK = real.DT_LNK
const DT_REG = real.DT_REG
const DT_SOCK = real.DT_SOCK
const DT_UNKNOWN = real.DT_UNKNOWN
const DT_WHT = real.DT_WHT

var DetachLsf = simrt.UnsupFunc(real.DetachLsf, "syscall.DetachLsf")

type Dirent = real.Dirent

var Dup = simrt.UnsupFunc(real.Dup, "syscall.Dup")
var Dup2 = simrt.UnsupFunc(real.Dup2, "syscall.Dup2")
var Dup3 = simrt.UnsupFunc(real.Dup3, "syscall.Dup3")

const E2BIG = real.E2BIG
const EACCES = real.EACCES
const EADDRINUSE = real.EADDRINUSE
const EADDRNOTAVAIL = real.EADDRNOTAVAIL
const EADV = real.EADV
const EAFNOSUPPORT = real.EAFNOSUPPORT
const EAGAIN = real.EAGAIN
const EALREADY = real.EALREADY
const EBADE = real.EBADE
const EBADF = real.EBADF
const EBADFD = real.EBADFD
const EBADMSG = real.EBADMSG
const EBADR = real.EBADR
const EBADRQC = real.EBADRQC
const EBADSLT = real.EBADSLT
const EBFONT = real.EBFONT
const EBUSY = real.EBUSY
const ECANCELED = real.ECANCELED
const ECHILD = real.ECHILD
const ECHO = real.ECHO
const ECHOCTL = real.ECHOCTL
const ECHOE = real.ECHOE
const ECHOK = real.ECHOK
const ECHOKE = real.ECHOKE
const ECHONL = real.ECHONL
const ECHOPRT = real.ECHOPRT
const ECHRNG = real.ECHRNG
const ECOMM = real.ECOMM
const ECONNABORTED = real.ECONNABORTED
const ECONNREFUSED = real.ECONNREFUSED
const ECONNRESET = real.ECONNRESET
const EDEADLK = real.EDEADLK
const EDEADLOCK = real.EDEADLOCK
const EDESTADDRREQ = real.EDESTADDRREQ
const EDOM = real.EDOM
const EDOTDOT = real.EDOTDOT
const EDQUOT = real.EDQUOT
const EEXIST = real.EEXIST
const EFAULT = real.EFAULT
const EFBIG = real.EFBIG
const EHOSTDOWN = real.EHOSTDOWN
const EHOSTUNREACH = real.EHOSTUNREACH
const EIDRM = real.EIDRM
const EILSEQ = real.EILSEQ
const EINPROGRESS = real.EINPROGRESS
const EINTR = real.EINTR
const EINVAL = real.EINVAL
const EIO = real.EIO
const EISCONN = real.EISCONN
const EISDIR = real.EISDIR
const EISNAM = real.EISNAM
const EKEYEXPIRED = real.EKEYEXPIRED
const EKEYREJECTED = real.EKEYREJECTED
const EKEYREVOKED = real.EKEYREVOKED
const EL2HLT = real.EL2HLT
const EL2NSYNC = real.EL2NSYNC
const EL3HLT = real.EL3HLT
const EL3RST = real.EL3RST
const ELIBACC = real.ELIBACC
const ELIBBAD = real.ELIBBAD
const ELIBEXEC = real.ELIBEXEC
const ELIBMAX = real.ELIBMAX
const ELIBSCN = real.ELIBSCN
const ELNRNG = real.ELNRNG
const ELOOP = real.ELOOP
const EMEDIUMTYPE = real.EMEDIUMTYPE
const EMFILE = real.EMFILE
const EMLINK = real.EMLINK
const EMSGSIZE = real.EMSGSIZE
const EMULTIHOP = real.EMULTIHOP
const ENAMETOOLONG = real.ENAMETOOLONG
const ENAVAIL = real.ENAVAIL
const ENETDOWN = real.ENETDOWN
const ENETRESET = real.ENETRESET
const ENETUNREACH = real.ENETUNREACH
const ENFILE = real.ENFILE
const ENOANO = real.ENOANO
const ENOBUFS = real.ENOBUFS
const ENOCSI = real.ENOCSI
const ENODATA = real.ENODATA
const ENODEV = real.ENODEV
const ENOENT = real.ENOENT
const ENOEXEC = real.ENOEXEC
const ENOKEY = real.ENOKEY
const ENOLCK = real.ENOLCK
const ENOLINK = real.ENOLINK
const ENOMEDIUM = real.ENOMEDIUM
const ENOMEM = real.ENOMEM
const ENOMSG = real.ENOMSG
const ENONET = real.ENONET
const ENOPKG = real.ENOPKG
const ENOPROTOOPT = real.ENOPROTOOPT
const ENOSPC = real.ENOSPC
const ENOSR = real.ENOSR
const ENOSTR = real.ENOSTR
const ENOSYS = real.ENOSYS
const ENOTBLK = real.ENOTBLK
const ENOTCONN = real.ENOTCONN
const ENOTDIR = real.ENOTDIR
const ENOTEMPTY = real.ENOTEMPTY
const ENOTNAM = real.ENOTNAM
const ENOTRECOVERABLE = real.ENOTRECOVERABLE
const ENOTSOCK = real.ENOTSOCK
const ENOTSUP = real.ENOTSUP
const ENOTTY = real.ENOTTY
const ENOTUNIQ = real.ENOTUNIQ
const ENXIO = real.ENXIO
const EOPNOTSUPP = real.EOPNOTSUPP
const EOVERFLOW = real.EOVERFLOW
const EOWNERDEAD = real.EOWNERDEAD
const EPERM = real.EPERM
const EPFNOSUPPORT = real.EPFNOSUPPORT
const EPIPE = real.EPIPE
const EPOLLERR = real.EPOLLERR
const EPOLLET = real.EPOLLET
const EPOLLHUP = real.EPOLLHUP
const EPOLLIN = real.EPOLLIN
const EPOLLMSG = real.EPOLLMSG
const EPOLLONESHOT = real.EPOLLONESHOT
const EPOLLOUT = real.EPOLLOUT
const EPOLLPRI = real.EPOLLPRI
const EPOLLRDBAND = real.EPOLLRDBAND
const EPOLLRDHUP = real.EPOLLRDHUP
const EPOLLRDNORM = real.EPOLLRDNORM
const EPOLLWRBAND = real.EPOLLWRBAND
const EPOLLWRNORM = real.EPOLLWRNORM
const EPOLL_CLOEXEC = real.EPOLL_CLOEXEC
const EPOLL_CTL_ADD = real.EPOLL_CTL_ADD
const EPOLL_CTL_DEL = real.EPOLL_CTL_DEL
const EPOLL_CTL_MOD = real.EPOLL_CTL_MOD
const EPOLL_NONBLOCK = real.EPOLL_NONBLOCK
const EPROTO = real.EPROTO
const EPROTONOSUPPORT = real.EPROTONOSUPPORT
const EPROTOTYPE = real.EPROTOTYPE
const ERANGE = real.ERANGE
const EREMCHG = real.EREMCHG
const EREMOTE = real.EREMOTE
const EREMOTEIO = real.EREMOTEIO
const ERESTART = real.ERESTART
const ERFKILL = real.ERFKILL
const EROFS = real.EROFS
const ESHUTDOWN = real.ESHUTDOWN
const ESOCKTNOSUPPORT = real.ESOCKTNOSUPPORT
const ESPIPE = real.ESPIPE
const ESRCH = real.ESRCH
const ESRMNT = real.ESRMNT
const ESTALE = real.ESTALE
const ESTRPIPE = real.ESTRPIPE
const ETH_P_1588 = real.ETH_P_1588
const ETH_P_8021Q = real.ETH_P_8021Q
const ETH_P_802_2 = real.ETH_P_802_2
const ETH_P_802_3 = real.ETH_P_802_3
const ETH_P_AARP = real.ETH_P_AARP
const ETH_P_ALL = real.ETH_P_ALL
const ETH_P_AOE = real.ETH_P_AOE
const ETH_P_ARCNET = real.ETH_P_ARCNET
const ETH_P_ARP = real.ETH_P_ARP
const ETH_P_ATALK = real.ETH_P_ATALK
const ETH_P_ATMFATE = real.ETH_P_ATMFATE
const ETH_P_ATMMPOA = real.ETH_P_ATMMPOA
const ETH_P_AX25 = real.ETH_P_AX25
const ETH_P_BPQ = real.ETH_P_BPQ
const ETH_P_CAIF = real.ETH_P_CAIF
const ETH_P_CAN = real.ETH_P_CAN
const ETH_P_CONTROL = real.ETH_P_CONTROL
const ETH_P_CUST = real.ETH_P_CUST
const ETH_P_DDCMP = real.ETH_P_DDCMP
const ETH_P_DEC = real.ETH_P_DEC
const ETH_P_DIAG = real.ETH_P_DIAG
const ETH_P_DNA_DL = real.ETH_P_DNA_DL
const ETH_P_DNA_RC = real.ETH_P_DNA_RC
const ETH_P_DNA_RT = real.ETH_P_DNA_RT
const ETH_P_DSA = real.ETH_P_DSA
const ETH_P_ECONET = real.ETH_P_ECONET
const ETH_P_EDSA = real.ETH_P_EDSA
const ETH_P_FCOE = real.ETH_P_FCOE
const ETH_P_FIP = real.ETH_P_FIP
const ETH_P_HDLC = real.ETH_P_HDLC
const ETH_P_IEEE802154 = real.ETH_P_IEEE802154
const ETH_P_IEEEPUP = real.ETH_P_IEEEPUP
const ETH_P_IEEEPUPAT = real.ETH_P_IEEEPUPAT
const ETH_P_IP = real.ETH_P_IP
const ETH_P_IPV6 = real.ETH_P_IPV6
const ETH_P_IPX = real.ETH_P_IPX
const ETH_P_IRDA = real.ETH_P_IRDA
const ETH_P_LAT = real.ETH_P_LAT
const ETH_P_LINK_CTL = real.ETH_P_LINK_CTL
const ETH_P_LOCALTALK = real.ETH_P_LOCALTALK
const ETH_P_LOOP = real.ETH_P_LOOP
const ETH_P_MOBITEX = real.ETH_P_MOBITEX
const ETH_P_MPLS_MC = real.ETH_P_MPLS_MC
const ETH_P_MPLS_UC = real.ETH_P_MPLS_UC
const ETH_P_PAE = real.ETH_P_PAE
const ETH_P_PAUSE = real.ETH_P_PAUSE
const ETH_P_PHONET = real.ETH_P_PHONET
const ETH_P_PPPTALK = real.ETH_P_PPPTALK
const ETH_P_PPP_DISC = real.ETH_P_PPP_DISC
const ETH_P_PPP_MP = real.ETH_P_PPP_MP
const ETH_P_PPP_SES = real.ETH_P_PPP_SES
const ETH_P_PUP = real.ETH_P_PUP
const ETH_P_PUPAT = real.ETH_P_PUPAT
const ETH_P_RARP = real.ETH_P_RARP
const ETH_P_SCA = real.ETH_P_SCA
const ETH_P_SLOW = real.ETH_P_SLOW
const ETH_P_SNAP = real.ETH_P_SNAP
const ETH_P_TEB = real.ETH_P_TEB
const ETH_P_TIPC = real.ETH_P_TIPC
const ETH_P_TRAILER = real.ETH_P_TRAILER
const ETH_P_TR_802_2 = real.ETH_P_TR_802_2
const ETH_P_WAN_PPP = real.ETH_P_WAN_PPP
const ETH_P_WCCP = real.ETH_P_WCCP
const ETH_P_X25 = real.ETH_P_X25
const ETIME = real.ETIME
const ETIMEDOUT = real.ETIMEDOUT
const ETOOMANYREFS = real.ETOOMANYREFS
const ETXTBSY = real.ETXTBSY
const EUCLEAN = real.EUCLEAN
const EUNATCH = real.EUNATCH
const EUSERS = real.EUSERS
const EWOULDBLOCK = real.EWOULDBLOCK
const EXDEV = real.EXDEV
const EXFULL = real.EXFULL

var Environ = simrt.UnsupFunc(real.Environ, "syscall.Environ")
var EpollCreate = simrt.UnsupFunc(real.EpollCreate, "syscall.EpollCreate")
var EpollCreate1 = simrt.UnsupFunc(real.EpollCreate1, "syscall.EpollCreate1")
var EpollCtl = simrt.UnsupFunc(real.EpollCtl, "syscall.EpollCtl")

type EpollEvent = real.EpollEvent

var EpollWait = simrt.UnsupFunc(real.EpollWait, "syscall.EpollWait")

type Errno = real.Errno

var Exec = simrt.UnsupFunc(real.Exec, "syscall.Exec")

const FD_CLOEXEC = real.FD_CLOEXEC
const FD_SETSIZE = real.FD_SETSIZE
const FLUSHO = real.FLUSHO
const F_DUPFD = real.F_DUPFD
const F_DUPFD_CLOEXEC = real.F_DUPFD_CLOEXEC
const F_EXLCK = real.F_EXLCK
const F_GETFD = real.F_GETFD
const F_GETFL = real.F_GETFL
const F_GETLEASE = real.F_GETLEASE
const F_GETLK = real.F_GETLK
const F_GETLK64 = real.F_GETLK64
const F_GETOWN = real.F_GETOWN
const F_GETOWN_EX = real.F_GETOWN_EX
const F_GETPIPE_SZ = real.F_GETPIPE_SZ
const F_GETSIG = real.F_GETSIG
const F_LOCK = real.F_LOCK
const F_NOTIFY = real.F_NOTIFY
const F_OK = real.F_OK
const F_RDLCK = real.F_RDLCK
const F_SETFD = real.F_SETFD
const F_SETFL = real.F_SETFL
const F_SETLEASE = real.F_SETLEASE
const F_SETLK = real.F_SETLK
const F_SETLK64 = real.F_SETLK64
const F_SETLKW = real.F_SETLKW
const F_SETLKW64 = real.F_SETLKW64
const F_SETOWN = real.F_SETOWN
const F_SETOWN_EX = real.F_SETOWN_EX
const F_SETPIPE_SZ = real.F_SETPIPE_SZ
const F_SETSIG = real.F_SETSIG
const F_SHLCK = real.F_SHLCK
const F_TEST = real.F_TEST
const F_TLOCK = real.F_TLOCK
const F_ULOCK = real.F_ULOCK
const F_UNLCK = real.F_UNLCK
const F_WRLCK = real.F_WRLCK

var Faccessat = simrt.UnsupFunc(real.Faccessat, "syscall.Faccessat")
var Fallocate = simrt.UnsupFunc(real.Fallocate, "syscall.Fallocate")
var Fchdir = simrt.UnsupFunc(real.Fchdir, "syscall.Fchdir")
var Fchmod = simrt.UnsupFunc(real.Fchmod, "syscall.Fchmod")
var Fchmodat = simrt.UnsupFunc(real.Fchmodat, "syscall.Fchmodat")
var Fchown = simrt.UnsupFunc(real.Fchown, "syscall.Fchown")
var Fchownat = simrt.UnsupFunc(real.Fchownat, "syscall.Fchownat")
var FcntlFlock = simrt.UnsupFunc(real.FcntlFlock, "syscall.FcntlFlock")

type FdSet = real.FdSet

var Fdatasync = simrt.UnsupFunc(real.Fdatasync, "syscall.Fdatasync")
var Flock = simrt.UnsupFunc(real.Flock, "syscall.Flock")

type Flock_t = real.Flock_t

var ForkExec = simrt.UnsupFunc(real.ForkExec, "syscall.ForkExec")
var ForkLock = real.ForkLock

type Fsid = real.Fsid

var Fstat = simrt.UnsupFunc(real.Fstat, "syscall.Fstat")
var Fstatfs = simrt.UnsupFunc(real.Fstatfs, "syscall.Fstatfs")
var Fsync = simrt.UnsupFunc(real.Fsync, "syscall.Fsync")
var Ftruncate = simrt.UnsupFunc(real.Ftruncate, "syscall.Ftruncate")
var Futimes = simrt.UnsupFunc(real.Futimes, "syscall.Futimes")
var Futimesat = simrt.UnsupFunc(real.Futimesat, "syscall.Futimesat")
var Getcwd = simrt.UnsupFunc(real.Getcwd, "syscall.Getcwd")
var Getdents = simrt.UnsupFunc(real.Getdents, "syscall.Getdents")
var Getegid = simrt.UnsupFunc(real.Getegid, "syscall.Getegid")
var Geteuid = simrt.UnsupFunc(real.Geteuid, "syscall.Geteuid")
var Getgroups = simrt.UnsupFunc(real.Getgroups, "syscall.Getgroups")
var Getpagesize = real.Getpagesize
var Getpeername = simrt.UnsupFunc(real.Getpeername, "syscall.Getpeername")
var Getpgid = simrt.UnsupFunc(real.Getpgid, "syscall.Getpgid")
var Getpgrp = simrt.UnsupFunc(real.Getpgrp, "syscall.Getpgrp")
var Getppid = simrt.UnsupFunc(real.Getppid, "syscall.Getppid")
var Getpriority = simrt.UnsupFunc(real.Getpriority, "syscall.Getpriority")
var Getrlimit = simrt.UnsupFunc(real.Getrlimit, "syscall.Getrlimit")
var Getrusage = simrt.UnsupFunc(real.Getrusage, "syscall.Getrusage")
var Getsockname = simrt.UnsupFunc(real.Getsockname, "syscall.Getsockname")
var GetsockoptICMPv6Filter = simrt.UnsupFunc(real.GetsockoptICMPv6Filter, "syscall.GetsockoptICMPv6Filter")
var GetsockoptIPMreq = simrt.UnsupFunc(real.GetsockoptIPMreq, "syscall.GetsockoptIPMreq")
var GetsockoptIPMreqn = simrt.UnsupFunc(real.GetsockoptIPMreqn, "syscall.GetsockoptIPMreqn")
var GetsockoptIPv6MTUInfo = simrt.UnsupFunc(real.GetsockoptIPv6MTUInfo, "syscall.GetsockoptIPv6MTUInfo")
var GetsockoptIPv6Mreq = simrt.UnsupFunc(real.GetsockoptIPv6Mreq, "syscall.GetsockoptIPv6Mreq")
var GetsockoptInet4Addr = simrt.UnsupFunc(real.GetsockoptInet4Addr, "syscall.GetsockoptInet4Addr")
var GetsockoptInt = simrt.UnsupFunc(real.GetsockoptInt, "syscall.GetsockoptInt")
var GetsockoptUcred = simrt.UnsupFunc(real.GetsockoptUcred, "syscall.GetsockoptUcred")
var Gettid = simrt.UnsupFunc(real.Gettid, "syscall.Gettid")
var Gettimeofday = simrt.UnsupFunc(real.Gettimeofday, "syscall.Gettimeofday")
var Getxattr = simrt.UnsupFunc(real.Getxattr, "syscall.Getxattr")

const HUPCL = real.HUPCL
const ICANON = real.ICANON
const ICMPV6_FILTER = real.ICMPV6_FILTER

type ICMPv6Filter = real.ICMPv6Filter

const ICRNL = real.ICRNL
const IEXTEN = real.IEXTEN
const IFA_ADDRESS = real.IFA_ADDRESS
const IFA_ANYCAST = real.IFA_ANYCAST
const IFA_BROADCAST = real.IFA_BROADCAST
const IFA_CACHEINFO = real.IFA_CACHEINFO
const IFA_F_DADFAILED = real.IFA_F_DADFAILED
const IFA_F_DEPRECATED = real.IFA_F_DEPRECATED
const IFA_F_HOMEADDRESS = real.IFA_F_HOMEADDRESS
const IFA_F_NODAD = real.IFA_F_NODAD
const IFA_F_OPTIMISTIC = real.IFA_F_OPTIMISTIC
const IFA_F_PERMANENT = real.IFA_F_PERMANENT
const IFA_F_SECONDARY = real.IFA_F_SECONDARY
const IFA_F_TEMPORARY = real.IFA_F_TEMPORARY
const IFA_F_TENTATIVE = real.IFA_F_TENTATIVE
const IFA_LABEL = real.IFA_LABEL
const IFA_LOCAL = real.IFA_LOCAL
const IFA_MAX = real.IFA_MAX
const IFA_MULTICAST = real.IFA_MULTICAST
const IFA_UNSPEC = real.IFA_UNSPEC
const IFF_ALLMULTI = real.IFF_ALLMULTI
const IFF_AUTOMEDIA = real.IFF_AUTOMEDIA
const IFF_BROADCAST = real.IFF_BROADCAST
const IFF_DEBUG = real.IFF_DEBUG
const IFF_DYNAMIC = real.IFF_DYNAMIC
const IFF_LOOPBACK = real.IFF_LOOPBACK
const IFF_MASTER = real.IFF_MASTER
const IFF_MULTICAST = real.IFF_MULTICAST
const IFF_NOARP = real.IFF_NOARP
const IFF_NOTRAILERS = real.IFF_NOTRAILERS
const IFF_NO_PI = real.IFF_NO_PI
const IFF_ONE_QUEUE = real.IFF_ONE_QUEUE
const IFF_POINTOPOINT = real.IFF_POINTOPOINT
const IFF_PORTSEL = real.IFF_PORTSEL
const IFF_PROMISC = real.IFF_PROMISC
const IFF_RUNNING = real.IFF_RUNNING
const IFF_SLAVE = real.IFF_SLAVE
const IFF_TAP = real.IFF_TAP
const IFF_TUN = real.IFF_TUN
const IFF_TUN_EXCL = real.IFF_TUN_EXCL
const IFF_UP = real.IFF_UP
const IFF_VNET_HDR = real.IFF_VNET_HDR
const IFLA_ADDRESS = real.IFLA_ADDRESS
const IFLA_BROADCAST = real.IFLA_BROADCAST
const IFLA_COST = real.IFLA_COST
const IFLA_IFALIAS = real.IFLA_IFALIAS
const IFLA_IFNAME = real.IFLA_IFNAME
const IFLA_LINK = real.IFLA_LINK
const IFLA_LINKINFO = real.IFLA_LINKINFO
const IFLA_LINKMODE = real.IFLA_LINKMODE
const IFLA_MAP = real.IFLA_MAP
const IFLA_MASTER = real.IFLA_MASTER
const IFLA_MAX = real.IFLA_MAX
const IFLA_MTU = real.IFLA_MTU
const IFLA_NET_NS_PID = real.IFLA_NET_NS_PID
const IFLA_OPERSTATE = real.IFLA_OPERSTATE
const IFLA_PRIORITY = real.IFLA_PRIORITY
const IFLA_PROTINFO = real.IFLA_PROTINFO
const IFLA_QDISC = real.IFLA_QDISC
const IFLA_STATS = real.IFLA_STATS
const IFLA_TXQLEN = real.IFLA_TXQLEN
const IFLA_UNSPEC = real.IFLA_UNSPEC
const IFLA_WEIGHT = real.IFLA_WEIGHT
const IFLA_WIRELESS = real.IFLA_WIRELESS
const IFNAMSIZ = real.IFNAMSIZ
const IGNBRK = real.IGNBRK
const IGNCR = real.IGNCR
const IGNPAR = real.IGNPAR
const IMAXBEL = real.IMAXBEL
const INLCR = real.INLCR
const INPCK = real.INPCK
const IN_ACCESS = real.IN_ACCESS
const IN_ALL_EVENTS = real.IN_ALL_EVENTS
const IN_ATTRIB = real.IN_ATTRIB
const IN_CLASSA_HOST = real.IN_CLASSA_HOST
const IN_CLASSA_MAX = real.IN_CLASSA_MAX
const IN_CLASSA_NET = real.IN_CLASSA_NET
const IN_CLASSA_NSHIFT = real.IN_CLASSA_NSHIFT
const IN_CLASSB_HOST = real.IN_CLASSB_HOST
const IN_CLASSB_MAX = real.IN_CLASSB_MAX
const IN_CLASSB_NET = real.IN_CLASSB_NET
const IN_CLASSB_NSHIFT = real.IN_CLASSB_NSHIFT
const IN_CLASSC_HOST = real.IN_CLASSC_HOST
const IN_CLASSC_NET = real.IN_CLASSC_NET
const IN_CLASSC_NSHIFT = real.IN_CLASSC_NSHIFT
const IN_CLOEXEC = real.IN_CLOEXEC
const IN_CLOSE = real.IN_CLOSE
const IN_CLOSE_NOWRITE = real.IN_CLOSE_NOWRITE
const IN_CLOSE_WRITE = real.IN_CLOSE_WRITE
const IN_CREATE = real.IN_CREATE
const IN_DELETE = real.IN_DELETE
const IN_DELETE_SELF = real.IN_DELETE_SELF
const IN_DONT_FOLLOW = real.IN_DONT_FOLLOW
const IN_EXCL_UNLINK = real.IN_EXCL_UNLINK
const IN_IGNORED = real.IN_IGNORED
const IN_ISDIR = real.IN_ISDIR
const IN_LOOPBACKNET = real.IN_LOOPBACKNET
const IN_MASK_ADD = real.IN_MASK_ADD
const IN_MODIFY = real.IN_MODIFY
const IN_MOVE = real.IN_MOVE
const IN_MOVED_FROM = real.IN_MOVED_FROM
const IN_MOVED_TO = real.IN_MOVED_TO
const IN_MOVE_SELF = real.IN_MOVE_SELF
const IN_NONBLOCK = real.IN_NONBLOCK
const IN_ONESHOT = real.IN_ONESHOT
const IN_ONLYDIR = real.IN_ONLYDIR
const IN_OPEN = real.IN_OPEN
const IN_Q_OVERFLOW = real.IN_Q_OVERFLOW
const IN_UNMOUNT = real.IN_UNMOUNT

type IPMreq = real.IPMreq
type IPMreqn = real.IPMreqn

const IPPROTO_AH = real.IPPROTO_AH
const IPPROTO_COMP = real.IPPROTO_COMP
const IPPROTO_DCCP = real.IPPROTO_DCCP
const IPPROTO_DSTOPTS = real.IPPROTO_DSTOPTS
const IPPROTO_EGP = real.IPPROTO_EGP
const IPPROTO_ENCAP = real.IPPROTO_ENCAP
const IPPROTO_ESP = real.IPPROTO_ESP
const IPPROTO_FRAGMENT = real.IPPROTO_FRAGMENT
const IPPROTO_GRE = real.IPPROTO_GRE
const IPPROTO_HOPOPTS = real.IPPROTO_HOPOPTS
const IPPROTO_ICMP = real.IPPROTO_ICMP
const IPPROTO_ICMPV6 = real.IPPROTO_ICMPV6
const IPPROTO_IDP = real.IPPROTO_IDP
const IPPROTO_IGMP = real.IPPROTO_IGMP
const IPPROTO_IP = real.IPPROTO_IP
const IPPROTO_IPIP = real.IPPROTO_IPIP
const IPPROTO_IPV6 = real.IPPROTO_IPV6
const IPPROTO_MTP = real.IPPROTO_MTP
const IPPROTO_NONE = real.IPPROTO_NONE
const IPPROTO_PIM = real.IPPROTO_PIM
const IPPROTO_PUP = real.IPPROTO_PUP
const IPPROTO_RAW = real.IPPROTO_RAW
const IPPROTO_ROUTING = real.IPPROTO_ROUTING
const IPPROTO_RSVP = real.IPPROTO_RSVP
const IPPROTO_SCTP = real.IPPROTO_SCTP
const IPPROTO_TCP = real.IPPROTO_TCP
const IPPROTO_TP = real.IPPROTO_TP
const IPPROTO_UDP = real.IPPROTO_UDP
const IPPROTO_UDPLITE = real.IPPROTO_UDPLITE
const IPV6_2292DSTOPTS = real.IPV6_2292DSTOPTS
const IPV6_2292HOPLIMIT = real.IPV6_2292HOPLIMIT
const IPV6_2292HOPOPTS = real.IPV6_2292HOPOPTS
const IPV6_2292PKTINFO = real.IPV6_2292PKTINFO
const IPV6_2292PKTOPTIONS = real.IPV6_2292PKTOPTIONS
const IPV6_2292RTHDR = real.IPV6_2292RTHDR
const IPV6_ADDRFORM = real.IPV6_ADDRFORM
const IPV6_ADD_MEMBERSHIP = real.IPV6_ADD_MEMBERSHIP
const IPV6_AUTHHDR = real.IPV6_AUTHHDR
const IPV6_CHECKSUM = real.IPV6_CHECKSUM
const IPV6_DROP_MEMBERSHIP = real.IPV6_DROP_MEMBERSHIP
const IPV6_DSTOPTS = real.IPV6_DSTOPTS
const IPV6_HOPLIMIT = real.IPV6_HOPLIMIT
const IPV6_HOPOPTS = real.IPV6_HOPOPTS
const IPV6_IPSEC_POLICY = real.IPV6_IPSEC_POLICY
const IPV6_JOIN_ANYCAST = real.IPV6_JOIN_ANYCAST
const IPV6_JOIN_GROUP = real.IPV6_JOIN_GROUP
const IPV6_LEAVE_ANYCAST = real.IPV6_LEAVE_ANYCAST
const IPV6_LEAVE_GROUP = real.IPV6_LEAVE_GROUP
const IPV6_MTU = real.IPV6_MTU
const IPV6_MTU_DISCOVER = real.IPV6_MTU_DISCOVER
const IPV6_MULTICAST_HOPS = real.IPV6_MULTICAST_HOPS
const IPV6_MULTICAST_IF = real.IPV6_MULTICAST_IF
const IPV6_MULTICAST_LOOP = real.IPV6_MULTICAST_LOOP
const IPV6_NEXTHOP = real.IPV6_NEXTHOP
const IPV6_PKTINFO = real.IPV6_PKTINFO
const IPV6_PMTUDISC_DO = real.IPV6_PMTUDISC_DO
const IPV6_PMTUDISC_DONT = real.IPV6_PMTUDISC_DONT
const IPV6_PMTUDISC_PROBE = real.IPV6_PMTUDISC_PROBE
const IPV6_PMTUDISC_WANT = real.IPV6_PMTUDISC_WANT
const IPV6_RECVDSTOPTS = real.IPV6_RECVDSTOPTS
const IPV6_RECVERR = real.IPV6_RECVERR
const IPV6_RECVHOPLIMIT = real.IPV6_RECVHOPLIMIT
const IPV6_RECVHOPOPTS = real.IPV6_RECVHOPOPTS
const IPV6_RECVPKTINFO = real.IPV6_RECVPKTINFO
const IPV6_RECVRTHDR = real.IPV6_RECVRTHDR
const IPV6_RECVTCLASS = real.IPV6_RECVTCLASS
const IPV6_ROUTER_ALERT = real.IPV6_ROUTER_ALERT
const IPV6_RTHDR = real.IPV6_RTHDR
const IPV6_RTHDRDSTOPTS = real.IPV6_RTHDRDSTOPTS
const IPV6_RTHDR_LOOSE = real.IPV6_RTHDR_LOOSE
const IPV6_RTHDR_STRICT = real.IPV6_RTHDR_STRICT
const IPV6_RTHDR_TYPE_0 = real.IPV6_RTHDR_TYPE_0
const IPV6_RXDSTOPTS = real.IPV6_RXDSTOPTS
const IPV6_RXHOPOPTS = real.IPV6_RXHOPOPTS
const IPV6_TCLASS = real.IPV6_TCLASS
const IPV6_UNICAST_HOPS = real.IPV6_UNICAST_HOPS
const IPV6_V6ONLY = real.IPV6_V6ONLY
const IPV6_XFRM_POLICY = real.IPV6_XFRM_POLICY
const IP_ADD_MEMBERSHIP = real.IP_ADD_MEMBERSHIP
const IP_ADD_SOURCE_MEMBERSHIP = real.IP_ADD_SOURCE_MEMBERSHIP
const IP_BLOCK_SOURCE = real.IP_BLOCK_SOURCE
const IP_DEFAULT_MULTICAST_LOOP = real.IP_DEFAULT_MULTICAST_LOOP
const IP_DEFAULT_MULTICAST_TTL = real.IP_DEFAULT_MULTICAST_TTL
const IP_DF = real.IP_DF
const IP_DROP_MEMBERSHIP = real.IP_DROP_MEMBERSHIP
const IP_DROP_SOURCE_MEMBERSHIP = real.IP_DROP_SOURCE_MEMBERSHIP
const IP_FREEBIND = real.IP_FREEBIND
const IP_HDRINCL = real.IP_HDRINCL
const IP_IPSEC_POLICY = real.IP_IPSEC_POLICY
const IP_MAXPACKET = real.IP_MAXPACKET
const IP_MAX_MEMBERSHIPS = real.IP_MAX_MEMBERSHIPS
const IP_MF = real.IP_MF
const IP_MINTTL = real.IP_MINTTL
const IP_MSFILTER = real.IP_MSFILTER
const IP_MSS = real.IP_MSS
const IP_MTU = real.IP_MTU
const IP_MTU_DISCOVER = real.IP_MTU_DISCOVER
const IP_MULTICAST_IF = real.IP_MULTICAST_IF
const IP_MULTICAST_LOOP = real.IP_MULTICAST_LOOP
const IP_MULTICAST_TTL = real.IP_MULTICAST_TTL
const IP_OFFMASK = real.IP_OFFMASK
const IP_OPTIONS = real.IP_OPTIONS
const IP_ORIGDSTADDR = real.IP_ORIGDSTADDR
const IP_PASSSEC = real.IP_PASSSEC
const IP_PKTINFO = real.IP_PKTINFO
const IP_PKTOPTIONS = real.IP_PKTOPTIONS
const IP_PMTUDISC = real.IP_PMTUDISC
const IP_PMTUDISC_DO = real.IP_PMTUDISC_DO
const IP_PMTUDISC_DONT = real.IP_PMTUDISC_DONT
const IP_PMTUDISC_PROBE = real.IP_PMTUDISC_PROBE
const IP_PMTUDISC_WANT = real.IP_PMTUDISC_WANT
const IP_RECVERR = real.IP_RECVERR
const IP_RECVOPTS = real.IP_RECVOPTS
const IP_RECVORIGDSTADDR = real.IP_RECVORIGDSTADDR
const IP_RECVRETOPTS = real.IP_RECVRETOPTS
const IP_RECVTOS = real.IP_RECVTOS
const IP_RECVTTL = real.IP_RECVTTL
const IP_RETOPTS = real.IP_RETOPTS
const IP_RF = real.IP_RF
const IP_ROUTER_ALERT = real.IP_ROUTER_ALERT
const IP_TOS = real.IP_TOS
const IP_TRANSPARENT = real.IP_TRANSPARENT
const IP_TTL = real.IP_TTL
const IP_UNBLOCK_SOURCE = real.IP_UNBLOCK_SOURCE
const IP_XFRM_POLICY = real.IP_XFRM_POLICY

type IPv6MTUInfo = real.IPv6MTUInfo
type IPv6Mreq = real.IPv6Mreq

const ISIG = real.ISIG
const ISTRIP = real.ISTRIP
const IUCLC = real.IUCLC
const IUTF8 = real.IUTF8
const IXANY = real.IXANY
const IXOFF = real.IXOFF
const IXON = real.IXON

type IfAddrmsg = real.IfAddrmsg
type IfInfomsg = real.IfInfomsg

const ImplementsGetwd = real.ImplementsGetwd

type Inet4Pktinfo = real.Inet4Pktinfo
type Inet6Pktinfo = real.Inet6Pktinfo

var InotifyAddWatch = simrt.UnsupFunc(real.InotifyAddWatch, "syscall.InotifyAddWatch")

type InotifyEvent = real.InotifyEvent

var InotifyInit = simrt.UnsupFunc(real.InotifyInit, "syscall.InotifyInit")
var InotifyInit1 = simrt.UnsupFunc(real.InotifyInit1, "syscall.InotifyInit1")
var InotifyRmWatch = simrt.UnsupFunc(real.InotifyRmWatch, "syscall.InotifyRmWatch")
var Ioperm = simrt.UnsupFunc(real.Ioperm, "syscall.Ioperm")
var Iopl = simrt.UnsupFunc(real.Iopl, "syscall.Iopl")

type Iovec = real.Iovec

var Kill = simrt.UnsupFunc(real.Kill, "syscall.Kill")
var Klogctl = simrt.UnsupFunc(real.Klogctl, "syscall.Klogctl")

const LINUX_REBOOT_CMD_CAD_OFF = real.LINUX_REBOOT_CMD_CAD_OFF
const LINUX_REBOOT_CMD_CAD_ON = real.LINUX_REBOOT_CMD_CAD_ON
const LINUX_REBOOT_CMD_HALT = real.LINUX_REBOOT_CMD_HALT
const LINUX_REBOOT_CMD_KEXEC = real.LINUX_REBOOT_CMD_KEXEC
const LINUX_REBOOT_CMD_POWER_OFF = real.LINUX_REBOOT_CMD_POWER_OFF
const LINUX_REBOOT_CMD_RESTART = real.LINUX_REBOOT_CMD_RESTART
const LINUX_REBOOT_CMD_RESTART2 = real.LINUX_REBOOT_CMD_RESTART2
const LINUX_REBOOT_CMD_SW_SUSPEND = real.LINUX_REBOOT_CMD_SW_SUSPEND
const LINUX_REBOOT_MAGIC1 = real.LINUX_REBOOT_MAGIC1
const LINUX_REBOOT_MAGIC2 = real.LINUX_REBOOT_MAGIC2
const LOCK_EX = real.LOCK_EX
const LOCK_NB = real.LOCK_NB
const LOCK_SH = real.LOCK_SH
const LOCK_UN = real.LOCK_UN

var Lchown = simrt.UnsupFunc(real.Lchown, "syscall.Lchown")

type Linger = real.Linger

var Link = simrt.UnsupFunc(real.Link, "syscall.Link")
var Listen = simrt.UnsupFunc(real.Listen, "syscall.Listen")
var Listxattr = simrt.UnsupFunc(real.Listxattr, "syscall.Listxattr")
var LsfJump = simrt.UnsupFunc(real.LsfJump, "syscall.LsfJump")
var LsfSocket = simrt.UnsupFunc(real.LsfSocket, "syscall.LsfSocket")
var LsfStmt = simrt.UnsupFunc(real.LsfStmt, "syscall.LsfStmt")

const MADV_DOFORK = real.MADV_DOFORK
const MADV_DONTFORK = real.MADV_DONTFORK
const MADV_DONTNEED = real.MADV_DONTNEED
const MADV_HUGEPAGE = real.MADV_HUGEPAGE
const MADV_HWPOISON = real.MADV_HWPOISON
const MADV_MERGEABLE = real.MADV_MERGEABLE
const MADV_NOHUGEPAGE = real.MADV_NOHUGEPAGE
const MADV_NORMAL = real.MADV_NORMAL
const MADV_RANDOM = real.MADV_RANDOM
const MADV_REMOVE = real.MADV_REMOVE
const MADV_SEQUENTIAL = real.MADV_SEQUENTIAL
const MADV_UNMERGEABLE = real.MADV_UNMERGEABLE
const MADV_WILLNEED = real.MADV_WILLNEED
const MAP_32BIT = real.MAP_32BIT
const MAP_ANON = real.MAP_ANON
const MAP_ANONYMOUS = real.MAP_ANONYMOUS
const MAP_DENYWRITE = real.MAP_DENYWRITE
const MAP_EXECUTABLE = real.MAP_EXECUTABLE
const MAP_FILE = real.MAP_FILE
const MAP_FIXED = real.MAP_FIXED
const MAP_GROWSDOWN = real.MAP_GROWSDOWN
const MAP_HUGETLB = real.MAP_HUGETLB
const MAP_LOCKED = real.MAP_LOCKED
const MAP_NONBLOCK = real.MAP_NONBLOCK
const MAP_NORESERVE = real.MAP_NORESERVE
const MAP_POPULATE = real.MAP_POPULATE
const MAP_PRIVATE = real.MAP_PRIVATE
const MAP_SHARED = real.MAP_SHARED
const MAP_STACK = real.MAP_STACK
const MAP_TYPE = real.MAP_TYPE
const MCL_CURRENT = real.MCL_CURRENT
const MCL_FUTURE = real.MCL_FUTURE
const MNT_DETACH = real.MNT_DETACH
const MNT_EXPIRE = real.MNT_EXPIRE
const MNT_FORCE = real.MNT_FORCE
const MSG_CMSG_CLOEXEC = real.MSG_CMSG_CLOEXEC
const MSG_CONFIRM = real.MSG_CONFIRM
const MSG_CTRUNC = real.MSG_CTRUNC
const MSG_DONTROUTE = real.MSG_DONTROUTE
const MSG_DONTWAIT = real.MSG_DONTWAIT
const MSG_EOR = real.MSG_EOR
const MSG_ERRQUEUE = real.MSG_ERRQUEUE
const MSG_FASTOPEN = real.MSG_FASTOPEN
const MSG_FIN = real.MSG_FIN
const MSG_MORE = real.MSG_MORE
const MSG_NOSIGNAL = real.MSG_NOSIGNAL
const MSG_OOB = real.MSG_OOB
const MSG_PEEK = real.MSG_PEEK
const MSG_PROXY = real.MSG_PROXY
const MSG_RST = real.MSG_RST
const MSG_SYN = real.MSG_SYN
const MSG_TRUNC = real.MSG_TRUNC
const MSG_TRYHARD = real.MSG_TRYHARD
const MSG_WAITALL = real.MSG_WAITALL
const MSG_WAITFORONE = real.MSG_WAITFORONE
const MS_ACTIVE = real.MS_ACTIVE
const MS_ASYNC = real.MS_ASYNC
const MS_BIND = real.MS_BIND
const MS_DIRSYNC = real.MS_DIRSYNC
const MS_INVALIDATE = real.MS_INVALIDATE
const MS_I_VERSION = real.MS_I_VERSION
const MS_KERNMOUNT = real.MS_KERNMOUNT
const MS_MANDLOCK = real.MS_MANDLOCK
const MS_MGC_MSK = real.MS_MGC_MSK
const MS_MGC_VAL = real.MS_MGC_VAL
const MS_MOVE = real.MS_MOVE
const MS_NOATIME = real.MS_NOATIME
const MS_NODEV = real.MS_NODEV
const MS_NODIRATIME = real.MS_NODIRATIME
const MS_NOEXEC = real.MS_NOEXEC
const MS_NOSUID = real.MS_NOSUID
const MS_NOUSER = real.MS_NOUSER
const MS_POSIXACL = real.MS_POSIXACL
const MS_PRIVATE = real.MS_PRIVATE
const MS_RDONLY = real.MS_RDONLY
const MS_REC = real.MS_REC
const MS_RELATIME = real.MS_RELATIME
const MS_REMOUNT = real.MS_REMOUNT
const MS_RMT_MASK = real.MS_RMT_MASK
const MS_SHARED = real.MS_SHARED
const MS_SILENT = real.MS_SILENT
const MS_SLAVE = real.MS_SLAVE
const MS_STRICTATIME = real.MS_STRICTATIME
const MS_SYNC = real.MS_SYNC
const MS_SYNCHRONOUS = real.MS_SYNCHRONOUS
const MS_UNBINDABLE = real.MS_UNBINDABLE

var Madvise = simrt.UnsupFunc(real.Madvise, "syscall.Madvise")
var Mkdir = simrt.UnsupFunc(real.Mkdir, "syscall.Mkdir")
var Mkdirat = simrt.UnsupFunc(real.Mkdirat, "syscall.Mkdirat")
var Mkfifo = simrt.UnsupFunc(real.Mkfifo, "syscall.Mkfifo")
var Mknod = simrt.UnsupFunc(real.Mknod, "syscall.Mknod")
var Mknodat = simrt.UnsupFunc(real.Mknodat, "syscall.Mknodat")
var Mlock = simrt.UnsupFunc(real.Mlock, "syscall.Mlock")
var Mlockall = simrt.UnsupFunc(real.Mlockall, "syscall.Mlockall")
var Mmap = simrt.UnsupFunc(real.Mmap, "syscall.Mmap")
var Mount = simrt.UnsupFunc(real.Mount, "syscall.Mount")
var Mprotect = simrt.UnsupFunc(real.Mprotect, "syscall.Mprotect")

type Msghdr = real.Msghdr

var Munlock = simrt.UnsupFunc(real.Munlock, "syscall.Munlock")
var Munlockall = simrt.UnsupFunc(real.Munlockall, "syscall.Munlockall")
var Munmap = simrt.UnsupFunc(real.Munmap, "syscall.Munmap")

const NAME_MAX = real.NAME_MAX
const NETLINK_ADD_MEMBERSHIP = real.NETLINK_ADD_MEMBERSHIP
const NETLINK_AUDIT = real.NETLINK_AUDIT
const NETLINK_BROADCAST_ERROR = real.NETLINK_BROADCAST_ERROR
const NETLINK_CONNECTOR = real.NETLINK_CONNECTOR
const NETLINK_DNRTMSG = real.NETLINK_DNRTMSG
const NETLINK_DROP_MEMBERSHIP = real.NETLINK_DROP_MEMBERSHIP
const NETLINK_ECRYPTFS = real.NETLINK_ECRYPTFS
const NETLINK_FIB_LOOKUP = real.NETLINK_FIB_LOOKUP
const NETLINK_FIREWALL = real.NETLINK_FIREWALL
const NETLINK_GENERIC = real.NETLINK_GENERIC
const NETLINK_INET_DIAG = real.NETLINK_INET_DIAG
const NETLINK_IP6_FW = real.NETLINK_IP6_FW
const NETLINK_ISCSI = real.NETLINK_ISCSI
const NETLINK_KOBJECT_UEVENT = real.NETLINK_KOBJECT_UEVENT
const NETLINK_NETFILTER = real.NETLINK_NETFILTER
const NETLINK_NFLOG = real.NETLINK_NFLOG
const NETLINK_NO_ENOBUFS = real.NETLINK_NO_ENOBUFS
const NETLINK_PKTINFO = real.NETLINK_PKTINFO
const NETLINK_ROUTE = real.NETLINK_ROUTE
const NETLINK_SCSITRANSPORT = real.NETLINK_SCSITRANSPORT
const NETLINK_SELINUX = real.NETLINK_SELINUX
const NETLINK_UNUSED = real.NETLINK_UNUSED
const NETLINK_USERSOCK = real.NETLINK_USERSOCK
const NETLINK_XFRM = real.NETLINK_XFRM
const NLA_ALIGNTO = real.NLA_ALIGNTO
const NLA_F_NESTED = real.NLA_F_NESTED
const NLA_F_NET_BYTEORDER = real.NLA_F_NET_BYTEORDER
const NLA_HDRLEN = real.NLA_HDRLEN
const NLMSG_ALIGNTO = real.NLMSG_ALIGNTO
const NLMSG_DONE = real.NLMSG_DONE
const NLMSG_ERROR = real.NLMSG_ERROR
const NLMSG_HDRLEN = real.NLMSG_HDRLEN
const NLMSG_MIN_TYPE = real.NLMSG_MIN_TYPE
const NLMSG_NOOP = real.NLMSG_NOOP
const NLMSG_OVERRUN = real.NLMSG_OVERRUN
const NLM_F_ACK = real.NLM_F_ACK
const NLM_F_APPEND = real.NLM_F_APPEND
const NLM_F_ATOMIC = real.NLM_F_ATOMIC
const NLM_F_CREATE = real.NLM_F_CREATE
const NLM_F_DUMP = real.NLM_F_DUMP
const NLM_F_ECHO = real.NLM_F_ECHO
const NLM_F_EXCL = real.NLM_F_EXCL
const NLM_F_MATCH = real.NLM_F_MATCH
const NLM_F_MULTI = real.NLM_F_MULTI
const NLM_F_REPLACE = real.NLM_F_REPLACE
const NLM_F_REQUEST = real.NLM_F_REQUEST
const NLM_F_ROOT = real.NLM_F_ROOT
const NOFLSH = real.NOFLSH

var Nanosleep = simrt.UnsupFunc(real.Nanosleep, "syscall.Nanosleep")

type NetlinkMessage = real.NetlinkMessage

var NetlinkRIB = simrt.UnsupFunc(real.NetlinkRIB, "syscall.NetlinkRIB")

type NetlinkRouteAttr = real.NetlinkRouteAttr
type NetlinkRouteRequest = real.NetlinkRouteRequest
type NlAttr = real.NlAttr
type NlMsgerr = real.NlMsgerr
type NlMsghdr = real.NlMsghdr

var NsecToTimespec = real.NsecToTimespec
var NsecToTimeval = real.NsecToTimeval

const OCRNL = real.OCRNL
const OFDEL = real.OFDEL
const OFILL = real.OFILL
const OLCUC = real.OLCUC
const ONLCR = real.ONLCR
const ONLRET = real.ONLRET
const ONOCR = real.ONOCR
const OPOST = real.OPOST
const O_ACCMODE = real.O_ACCMODE
const O_APPEND = real.O_APPEND
const O_ASYNC = real.O_ASYNC
const O_CLOEXEC = real.O_CLOEXEC
const O_CREAT = real.O_CREAT
const O_DIRECT = real.O_DIRECT
const O_DIRECTORY = real.O_DIRECTORY
const O_DSYNC = real.O_DSYNC
const O_EXCL = real.O_EXCL
const O_FSYNC = real.O_FSYNC
const O_LARGEFILE = real.O_LARGEFILE
const O_NDELAY = real.O_NDELAY
const O_NOATIME = real.O_NOATIME
const O_NOCTTY = real.O_NOCTTY
const O_NOFOLLOW = real.O_NOFOLLOW
const O_NONBLOCK = real.O_NONBLOCK
const O_RDONLY = real.O_RDONLY
const O_RDWR = real.O_RDWR
const O_RSYNC = real.O_RSYNC
const O_SYNC = real.O_SYNC
const O_TRUNC = real.O_TRUNC
const O_WRONLY = real.O_WRONLY

var Open = simrt.UnsupFunc(real.Open, "syscall.Open")
var Openat = simrt.UnsupFunc(real.Openat, "syscall.Openat")

const PACKET_ADD_MEMBERSHIP = real.PACKET_ADD_MEMBERSHIP
const PACKET_BROADCAST = real.PACKET_BROADCAST
const PACKET_DROP_MEMBERSHIP = real.PACKET_DROP_MEMBERSHIP
const PACKET_FASTROUTE = real.PACKET_FASTROUTE
const PACKET_HOST = real.PACKET_HOST
const PACKET_LOOPBACK = real.PACKET_LOOPBACK
const PACKET_MR_ALLMULTI = real.PACKET_MR_ALLMULTI
const PACKET_MR_MULTICAST = real.PACKET_MR_MULTICAST
const PACKET_MR_PROMISC = real.PACKET_MR_PROMISC
const PACKET_MULTICAST = real.PACKET_MULTICAST
const PACKET_OTHERHOST = real.PACKET_OTHERHOST
const PACKET_OUTGOING = real.PACKET_OUTGOING
const PACKET_RECV_OUTPUT = real.PACKET_RECV_OUTPUT
const PACKET_RX_RING = real.PACKET_RX_RING
const PACKET_STATISTICS = real.PACKET_STATISTICS
const PARENB = real.PARENB
const PARMRK = real.PARMRK
const PARODD = real.PARODD
const PENDIN = real.PENDIN
const PRIO_PGRP = real.PRIO_PGRP
const PRIO_PROCESS = real.PRIO_PROCESS
const PRIO_USER = real.PRIO_USER
const PROT_EXEC = real.PROT_EXEC
const PROT_GROWSDOWN = real.PROT_GROWSDOWN
const PROT_GROWSUP = real.PROT_GROWSUP
const PROT_NONE = real.PROT_NONE
const PROT_READ = real.PROT_READ
const PROT_WRITE = real.PROT_WRITE
const PR_CAPBSET_DROP = real.PR_CAPBSET_DROP
const PR_CAPBSET_READ = real.PR_CAPBSET_READ
const PR_ENDIAN_BIG = real.PR_ENDIAN_BIG
const PR_ENDIAN_LITTLE = real.PR_ENDIAN_LITTLE
const PR_ENDIAN_PPC_LITTLE = real.PR_ENDIAN_PPC_LITTLE
const PR_FPEMU_NOPRINT = real.PR_FPEMU_NOPRINT
const PR_FPEMU_SIGFPE = real.PR_FPEMU_SIGFPE
const PR_FP_EXC_ASYNC = real.PR_FP_EXC_ASYNC
const PR_FP_EXC_DISABLED = real.PR_FP_EXC_DISABLED
const PR_FP_EXC_DIV = real.PR_FP_EXC_DIV
const PR_FP_EXC_INV = real.PR_FP_EXC_INV
const PR_FP_EXC_NONRECOV = real.PR_FP_EXC_NONRECOV
const PR_FP_EXC_OVF = real.PR_FP_EXC_OVF
const PR_FP_EXC_PRECISE = real.PR_FP_EXC_PRECISE
const PR_FP_EXC_RES = real.PR_FP_EXC_RES
const PR_FP_EXC_SW_ENABLE = real.PR_FP_EXC_SW_ENABLE
const PR_FP_EXC_UND = real.PR_FP_EXC_UND
const PR_GET_DUMPABLE = real.PR_GET_DUMPABLE
const PR_GET_ENDIAN = real.PR_GET_ENDIAN
const PR_GET_FPEMU = real.PR_GET_FPEMU
const PR_GET_FPEXC = real.PR_GET_FPEXC
const PR_GET_KEEPCAPS = real.PR_GET_KEEPCAPS
const PR_GET_NAME = real.PR_GET_NAME
const PR_GET_PDEATHSIG = real.PR_GET_PDEATHSIG
const PR_GET_SECCOMP = real.PR_GET_SECCOMP
const PR_GET_SECUREBITS = real.PR_GET_SECUREBITS
const PR_GET_TIMERSLACK = real.PR_GET_TIMERSLACK
const PR_GET_TIMING = real.PR_GET_TIMING
const PR_GET_TSC = real.PR_GET_TSC
const PR_GET_UNALIGN = real.PR_GET_UNALIGN
const PR_MCE_KILL = real.PR_MCE_KILL
const PR_MCE_KILL_CLEAR = real.PR_MCE_KILL_CLEAR
const PR_MCE_KILL_DEFAULT = real.PR_MCE_KILL_DEFAULT
const PR_MCE_KILL_EARLY = real.PR_MCE_KILL_EARLY
const PR_MCE_KILL_GET = real.PR_MCE_KILL_GET
const PR_MCE_KILL_LATE = real.PR_MCE_KILL_LATE
const PR_MCE_KILL_SET = real.PR_MCE_KILL_SET
const PR_SET_DUMPABLE = real.PR_SET_DUMPABLE
const PR_SET_ENDIAN = real.PR_SET_ENDIAN
const PR_SET_FPEMU = real.PR_SET_FPEMU
const PR_SET_FPEXC = real.PR_SET_FPEXC
const PR_SET_KEEPCAPS = real.PR_SET_KEEPCAPS
const PR_SET_NAME = real.PR_SET_NAME
const PR_SET_PDEATHSIG = real.PR_SET_PDEATHSIG
const PR_SET_PTRACER = real.PR_SET_PTRACER
const PR_SET_SECCOMP = real.PR_SET_SECCOMP
const PR_SET_SECUREBITS = real.PR_SET_SECUREBITS
const PR_SET_TIMERSLACK = real.PR_SET_TIMERSLACK
const PR_SET_TIMING = real.PR_SET_TIMING
const PR_SET_TSC = real.PR_SET_TSC
const PR_SET_UNALIGN = real.PR_SET_UNALIGN
const PR_TASK_PERF_EVENTS_DISABLE = real.PR_TASK_PERF_EVENTS_DISABLE
const PR_TASK_PERF_EVENTS_ENABLE = real.PR_TASK_PERF_EVENTS_ENABLE
const PR_TIMING_STATISTICAL = real.PR_TIMING_STATISTICAL
const PR_TIMING_TIMESTAMP = real.PR_TIMING_TIMESTAMP
const PR_TSC_ENABLE = real.PR_TSC_ENABLE
const PR_TSC_SIGSEGV = real.PR_TSC_SIGSEGV
const PR_UNALIGN_NOPRINT = real.PR_UNALIGN_NOPRINT
const PR_UNALIGN_SIGBUS = real.PR_UNALIGN_SIGBUS
const PTRACE_ARCH_PRCTL = real.PTRACE_ARCH_PRCTL
const PTRACE_ATTACH = real.PTRACE_ATTACH
const PTRACE_CONT = real.PTRACE_CONT
const PTRACE_DETACH = real.PTRACE_DETACH
const PTRACE_EVENT_CLONE = real.PTRACE_EVENT_CLONE
const PTRACE_EVENT_EXEC = real.PTRACE_EVENT_EXEC
const PTRACE_EVENT_EXIT = real.PTRACE_EVENT_EXIT
const PTRACE_EVENT_FORK = real.PTRACE_EVENT_FORK
const PTRACE_EVENT_VFORK = real.PTRACE_EVENT_VFORK
const PTRACE_EVENT_VFORK_DONE = real.PTRACE_EVENT_VFORK_DONE
const PTRACE_GETEVENTMSG = real.PTRACE_GETEVENTMSG
const PTRACE_GETFPREGS = real.PTRACE_GETFPREGS
const PTRACE_GETFPXREGS = real.PTRACE_GETFPXREGS
const PTRACE_GETREGS = real.PTRACE_GETREGS
const PTRACE_GETREGSET = real.PTRACE_GETREGSET
const PTRACE_GETSIGINFO = real.PTRACE_GETSIGINFO
const PTRACE_GET_THREAD_AREA = real.PTRACE_GET_THREAD_AREA
const PTRACE_KILL = real.PTRACE_KILL
const PTRACE_OLDSETOPTIONS = real.PTRACE_OLDSETOPTIONS
const PTRACE_O_MASK = real.PTRACE_O_MASK
const PTRACE_O_TRACECLONE = real.PTRACE_O_TRACECLONE
const PTRACE_O_TRACEEXEC = real.PTRACE_O_TRACEEXEC
const PTRACE_O_TRACEEXIT = real.PTRACE_O_TRACEEXIT
const PTRACE_O_TRACEFORK = real.PTRACE_O_TRACEFORK
const PTRACE_O_TRACESYSGOOD = real.PTRACE_O_TRACESYSGOOD
const PTRACE_O_TRACEVFORK = real.PTRACE_O_TRACEVFORK
const PTRACE_O_TRACEVFORKDONE = real.PTRACE_O_TRACEVFORKDONE
const PTRACE_PEEKDATA = real.PTRACE_PEEKDATA
const PTRACE_PEEKTEXT = real.PTRACE_PEEKTEXT
const PTRACE_PEEKUSR = real.PTRACE_PEEKUSR
const PTRACE_POKEDATA = real.PTRACE_POKEDATA
const PTRACE_POKETEXT = real.PTRACE_POKETEXT
const PTRACE_POKEUSR = real.PTRACE_POKEUSR
const PTRACE_SETFPREGS = real.PTRACE_SETFPREGS
const PTRACE_SETFPXREGS = real.PTRACE_SETFPXREGS
const PTRACE_SETOPTIONS = real.PTRACE_SETOPTIONS
const PTRACE_SETREGS = real.PTRACE_SETREGS
const PTRACE_SETREGSET = real.PTRACE_SETREGSET
const PTRACE_SETSIGINFO = real.PTRACE_SETSIGINFO
const PTRACE_SET_THREAD_AREA = real.PTRACE_SET_THREAD_AREA
const PTRACE_SINGLEBLOCK = real.PTRACE_SINGLEBLOCK
const PTRACE_SINGLESTEP = real.PTRACE_SINGLESTEP
const PTRACE_SYSCALL = real.PTRACE_SYSCALL
const PTRACE_SYSEMU = real.PTRACE_SYSEMU
const PTRACE_SYSEMU_SINGLESTEP = real.PTRACE_SYSEMU_SINGLESTEP
const PTRACE_TRACEME = real.PTRACE_TRACEME

var ParseDirent = simrt.UnsupFunc(real.ParseDirent, "syscall.ParseDirent")
var ParseNetlinkMessage = simrt.UnsupFunc(real.ParseNetlinkMessage, "syscall.ParseNetlinkMessage")
var ParseNetlinkRouteAttr = simrt.UnsupFunc(real.ParseNetlinkRouteAttr, "syscall.ParseNetlinkRouteAttr")
var ParseSocketControlMessage = simrt.UnsupFunc(real.ParseSocketControlMessage, "syscall.ParseSocketControlMessage")
var ParseUnixCredentials = simrt.UnsupFunc(real.ParseUnixCredentials, "syscall.ParseUnixCredentials")
var ParseUnixRights = simrt.UnsupFunc(real.ParseUnixRights, "syscall.ParseUnixRights")

const PathMax = real.PathMax

var Pause = simrt.UnsupFunc(real.Pause, "syscall.Pause")
var Pipe = simrt.UnsupFunc(real.Pipe, "syscall.Pipe")
var Pipe2 = simrt.UnsupFunc(real.Pipe2, "syscall.Pipe2")
var PivotRoot = simrt.UnsupFunc(real.PivotRoot, "syscall.PivotRoot")
var Pread = simrt.UnsupFunc(real.Pread, "syscall.Pread")

type ProcAttr = real.ProcAttr

var PtraceAttach = simrt.UnsupFunc(real.PtraceAttach, "syscall.PtraceAttach")
var PtraceCont = simrt.UnsupFunc(real.PtraceCont, "syscall.PtraceCont")
var PtraceDetach = simrt.UnsupFunc(real.PtraceDetach, "syscall.PtraceDetach")
var PtraceGetEventMsg = simrt.UnsupFunc(real.PtraceGetEventMsg, "syscall.PtraceGetEventMsg")
var PtraceGetRegs = simrt.UnsupFunc(real.PtraceGetRegs, "syscall.PtraceGetRegs")
var PtracePeekData = simrt.UnsupFunc(real.PtracePeekData, "syscall.PtracePeekData")
var PtracePeekText = simrt.UnsupFunc(real.PtracePeekText, "syscall.PtracePeekText")
var PtracePokeData = simrt.UnsupFunc(real.PtracePokeData, "syscall.PtracePokeData")
var PtracePokeText = simrt.UnsupFunc(real.PtracePokeText, "syscall.PtracePokeText")

type PtraceRegs = real.PtraceRegs

var PtraceSetOptions = simrt.UnsupFunc(real.PtraceSetOptions, "syscall.PtraceSetOptions")
var PtraceSetRegs = simrt.UnsupFunc(real.PtraceSetRegs, "syscall.PtraceSetRegs")
var PtraceSingleStep = simrt.UnsupFunc(real.PtraceSingleStep, "syscall.PtraceSingleStep")
var PtraceSyscall = simrt.UnsupFunc(real.PtraceSyscall, "syscall.PtraceSyscall")
var Pwrite = simrt.UnsupFunc(real.Pwrite, "syscall.Pwrite")

const RLIMIT_AS = real.RLIMIT_AS
const RLIMIT_CORE = real.RLIMIT_CORE
const RLIMIT_CPU = real.RLIMIT_CPU
const RLIMIT_DATA = real.RLIMIT_DATA
const RLIMIT_FSIZE = real.RLIMIT_FSIZE
const RLIMIT_NOFILE = real.RLIMIT_NOFILE
const RLIMIT_STACK = real.RLIMIT_STACK
const RLIM_INFINITY = real.RLIM_INFINITY
const RTAX_ADVMSS = real.RTAX_ADVMSS
const RTAX_CWND = real.RTAX_CWND
const RTAX_FEATURES = real.RTAX_FEATURES
const RTAX_FEATURE_ALLFRAG = real.RTAX_FEATURE_ALLFRAG
const RTAX_FEATURE_ECN = real.RTAX_FEATURE_ECN
const RTAX_FEATURE_SACK = real.RTAX_FEATURE_SACK
const RTAX_FEATURE_TIMESTAMP = real.RTAX_FEATURE_TIMESTAMP
const RTAX_HOPLIMIT = real.RTAX_HOPLIMIT
const RTAX_INITCWND = real.RTAX_INITCWND
const RTAX_INITRWND = real.RTAX_INITRWND
const RTAX_LOCK = real.RTAX_LOCK
const RTAX_MAX = real.RTAX_MAX
const RTAX_MTU = real.RTAX_MTU
const RTAX_REORDERING = real.RTAX_REORDERING
const RTAX_RTO_MIN = real.RTAX_RTO_MIN
const RTAX_RTT = real.RTAX_RTT
const RTAX_RTTVAR = real.RTAX_RTTVAR
const RTAX_SSTHRESH = real.RTAX_SSTHRESH
const RTAX_UNSPEC = real.RTAX_UNSPEC
const RTAX_WINDOW = real.RTAX_WINDOW
const RTA_ALIGNTO = real.RTA_ALIGNTO
const RTA_CACHEINFO = real.RTA_CACHEINFO
const RTA_DST = real.RTA_DST
const RTA_FLOW = real.RTA_FLOW
const RTA_GATEWAY = real.RTA_GATEWAY
const RTA_IIF = real.RTA_IIF
const RTA_MAX = real.RTA_MAX
const RTA_METRICS = real.RTA_METRICS
const RTA_MULTIPATH = real.RTA_MULTIPATH
const RTA_OIF = real.RTA_OIF
const RTA_PREFSRC = real.RTA_PREFSRC
const RTA_PRIORITY = real.RTA_PRIORITY
const RTA_SRC = real.RTA_SRC
const RTA_TABLE = real.RTA_TABLE
const RTA_UNSPEC = real.RTA_UNSPEC
const RTCF_DIRECTSRC = real.RTCF_DIRECTSRC
const RTCF_DOREDIRECT = real.RTCF_DOREDIRECT
const RTCF_LOG = real.RTCF_LOG
const RTCF_MASQ = real.RTCF_MASQ
const RTCF_NAT = real.RTCF_NAT
const RTCF_VALVE = real.RTCF_VALVE
const RTF_ADDRCLASSMASK = real.RTF_ADDRCLASSMASK
const RTF_ADDRCONF = real.RTF_ADDRCONF
const RTF_ALLONLINK = real.RTF_ALLONLINK
const RTF_BROADCAST = real.RTF_BROADCAST
const RTF_CACHE = real.RTF_CACHE
const RTF_DEFAULT = real.RTF_DEFAULT
const RTF_DYNAMIC = real.RTF_DYNAMIC
const RTF_FLOW = real.RTF_FLOW
const RTF_GATEWAY = real.RTF_GATEWAY
const RTF_HOST = real.RTF_HOST
const RTF_INTERFACE = real.RTF_INTERFACE
const RTF_IRTT = real.RTF_IRTT
const RTF_LINKRT = real.RTF_LINKRT
const RTF_LOCAL = real.RTF_LOCAL
const RTF_MODIFIED = real.RTF_MODIFIED
const RTF_MSS = real.RTF_MSS
const RTF_MTU = real.RTF_MTU
const RTF_MULTICAST = real.RTF_MULTICAST
const RTF_NAT = real.RTF_NAT
const RTF_NOFORWARD = real.RTF_NOFORWARD
const RTF_NONEXTHOP = real.RTF_NONEXTHOP
const RTF_NOPMTUDISC = real.RTF_NOPMTUDISC
const RTF_POLICY = real.RTF_POLICY
const RTF_REINSTATE = real.RTF_REINSTATE
const RTF_REJECT = real.RTF_REJECT
const RTF_STATIC = real.RTF_STATIC
const RTF_THROW = real.RTF_THROW
const RTF_UP = real.RTF_UP
const RTF_WINDOW = real.RTF_WINDOW
const RTF_XRESOLVE = real.RTF_XRESOLVE
const RTM_BASE = real.RTM_BASE
const RTM_DELACTION = real.RTM_DELACTION
const RTM_DELADDR = real.RTM_DELADDR
const RTM_DELADDRLABEL = real.RTM_DELADDRLABEL
const RTM_DELLINK = real.RTM_DELLINK
const RTM_DELNEIGH = real.RTM_DELNEIGH
const RTM_DELQDISC = real.RTM_DELQDISC
const RTM_DELROUTE = real.RTM_DELROUTE
const RTM_DELRULE = real.RTM_DELRULE
const RTM_DELTCLASS = real.RTM_DELTCLASS
const RTM_DELTFILTER = real.RTM_DELTFILTER
const RTM_F_CLONED = real.RTM_F_CLONED
const RTM_F_EQUALIZE = real.RTM_F_EQUALIZE
const RTM_F_NOTIFY = real.RTM_F_NOTIFY
const RTM_F_PREFIX = real.RTM_F_PREFIX
const RTM_GETACTION = real.RTM_GETACTION
const RTM_GETADDR = real.RTM_GETADDR
const RTM_GETADDRLABEL = real.RTM_GETADDRLABEL
const RTM_GETANYCAST = real.RTM_GETANYCAST
const RTM_GETDCB = real.RTM_GETDCB
const RTM_GETLINK = real.RTM_GETLINK
const RTM_GETMULTICAST = real.RTM_GETMULTICAST
const RTM_GETNEIGH = real.RTM_GETNEIGH
const RTM_GETNEIGHTBL = real.RTM_GETNEIGHTBL
const RTM_GETQDISC = real.RTM_GETQDISC
const RTM_GETROUTE = real.RTM_GETROUTE
const RTM_GETRULE = real.RTM_GETRULE
const RTM_GETTCLASS = real.RTM_GETTCLASS
const RTM_GETTFILTER = real.RTM_GETTFILTER
const RTM_MAX = real.RTM_MAX
const RTM_NEWACTION = real.RTM_NEWACTION
const RTM_NEWADDR = real.RTM_NEWADDR
const RTM_NEWADDRLABEL = real.RTM_NEWADDRLABEL
const RTM_NEWLINK = real.RTM_NEWLINK
const RTM_NEWNDUSEROPT = real.RTM_NEWNDUSEROPT
const RTM_NEWNEIGH = real.RTM_NEWNEIGH
const RTM_NEWNEIGHTBL = real.RTM_NEWNEIGHTBL
const RTM_NEWPREFIX = real.RTM_NEWPREFIX
const RTM_NEWQDISC = real.RTM_NEWQDISC
const RTM_NEWROUTE = real.RTM_NEWROUTE
const RTM_NEWRULE = real.RTM_NEWRULE
const RTM_NEWTCLASS = real.RTM_NEWTCLASS
const RTM_NEWTFILTER = real.RTM_NEWTFILTER
const RTM_NR_FAMILIES = real.RTM_NR_FAMILIES
const RTM_NR_MSGTYPES = real.RTM_NR_MSGTYPES
const RTM_SETDCB = real.RTM_SETDCB
const RTM_SETLINK = real.RTM_SETLINK
const RTM_SETNEIGHTBL = real.RTM_SETNEIGHTBL
const RTNH_ALIGNTO = real.RTNH_ALIGNTO
const RTNH_F_DEAD = real.RTNH_F_DEAD
const RTNH_F_ONLINK = real.RTNH_F_ONLINK
const RTNH_F_PERVASIVE = real.RTNH_F_PERVASIVE
const RTNLGRP_IPV4_IFADDR = real.RTNLGRP_IPV4_IFADDR
const RTNLGRP_IPV4_MROUTE = real.RTNLGRP_IPV4_MROUTE
const RTNLGRP_IPV4_ROUTE = real.RTNLGRP_IPV4_ROUTE
const RTNLGRP_IPV4_RULE = real.RTNLGRP_IPV4_RULE
const RTNLGRP_IPV6_IFADDR = real.RTNLGRP_IPV6_IFADDR
const RTNLGRP_IPV6_IFINFO = real.RTNLGRP_IPV6_IFINFO
const RTNLGRP_IPV6_MROUTE = real.RTNLGRP_IPV6_MROUTE
const RTNLGRP_IPV6_PREFIX = real.RTNLGRP_IPV6_PREFIX
const RTNLGRP_IPV6_ROUTE = real.RTNLGRP_IPV6_ROUTE
const RTNLGRP_IPV6_RULE = real.RTNLGRP_IPV6_RULE
const RTNLGRP_LINK = real.RTNLGRP_LINK
const RTNLGRP_ND_USEROPT = real.RTNLGRP_ND_USEROPT
const RTNLGRP_NEIGH = real.RTNLGRP_NEIGH
const RTNLGRP_NONE = real.RTNLGRP_NONE
const RTNLGRP_NOTIFY = real.RTNLGRP_NOTIFY
const RTNLGRP_TC = real.RTNLGRP_TC
const RTN_ANYCAST = real.RTN_ANYCAST
const RTN_BLACKHOLE = real.RTN_BLACKHOLE
const RTN_BROADCAST = real.RTN_BROADCAST
const RTN_LOCAL = real.RTN_LOCAL
const RTN_MAX = real.RTN_MAX
const RTN_MULTICAST = real.RTN_MULTICAST
const RTN_NAT = real.RTN_NAT
const RTN_PROHIBIT = real.RTN_PROHIBIT
const RTN_THROW = real.RTN_THROW
const RTN_UNICAST = real.RTN_UNICAST
const RTN_UNREACHABLE = real.RTN_UNREACHABLE
const RTN_UNSPEC = real.RTN_UNSPEC
const RTN_XRESOLVE = real.RTN_XRESOLVE
const RTPROT_BIRD = real.RTPROT_BIRD
const RTPROT_BOOT = real.RTPROT_BOOT
const RTPROT_DHCP = real.RTPROT_DHCP
const RTPROT_DNROUTED = real.RTPROT_DNROUTED
const RTPROT_GATED = real.RTPROT_GATED
const RTPROT_KERNEL = real.RTPROT_KERNEL
const RTPROT_MRT = real.RTPROT_MRT
const RTPROT_NTK = real.RTPROT_NTK
const RTPROT_RA = real.RTPROT_RA
const RTPROT_REDIRECT = real.RTPROT_REDIRECT
const RTPROT_STATIC = real.RTPROT_STATIC
const RTPROT_UNSPEC = real.RTPROT_UNSPEC
const RTPROT_XORP = real.RTPROT_XORP
const RTPROT_ZEBRA = real.RTPROT_ZEBRA
const RT_CLASS_DEFAULT = real.RT_CLASS_DEFAULT
const RT_CLASS_LOCAL = real.RT_CLASS_LOCAL
const RT_CLASS_MAIN = real.RT_CLASS_MAIN
const RT_CLASS_MAX = real.RT_CLASS_MAX
const RT_CLASS_UNSPEC = real.RT_CLASS_UNSPEC
const RT_SCOPE_HOST = real.RT_SCOPE_HOST
const RT_SCOPE_LINK = real.RT_SCOPE_LINK
const RT_SCOPE_NOWHERE = real.RT_SCOPE_NOWHERE
const RT_SCOPE_SITE = real.RT_SCOPE_SITE
const RT_SCOPE_UNIVERSE = real.RT_SCOPE_UNIVERSE
const RT_TABLE_COMPAT = real.RT_TABLE_COMPAT
const RT_TABLE_DEFAULT = real.RT_TABLE_DEFAULT
const RT_TABLE_LOCAL = real.RT_TABLE_LOCAL
const RT_TABLE_MAIN = real.RT_TABLE_MAIN
const RT_TABLE_MAX = real.RT_TABLE_MAX
const RT_TABLE_UNSPEC = real.RT_TABLE_UNSPEC
const RUSAGE_CHILDREN = real.RUSAGE_CHILDREN
const RUSAGE_SELF = real.RUSAGE_SELF
const RUSAGE_THREAD = real.RUSAGE_THREAD

type RawConn = real.RawConn
type RawSockaddr = real.RawSockaddr
type RawSockaddrAny = real.RawSockaddrAny
type RawSockaddrInet4 = real.RawSockaddrInet4
type RawSockaddrInet6 = real.RawSockaddrInet6
type RawSockaddrLinklayer = real.RawSockaddrLinklayer
type RawSockaddrNetlink = real.RawSockaddrNetlink
type RawSockaddrUnix = real.RawSockaddrUnix

var RawSyscall = simrt.UnsupFunc(real.RawSyscall, "syscall.RawSyscall")
var RawSyscall6 = simrt.UnsupFunc(real.RawSyscall6, "syscall.RawSyscall6")
var Read = simrt.UnsupFunc(real.Read, "syscall.Read")
var ReadDirent = simrt.UnsupFunc(real.ReadDirent, "syscall.ReadDirent")
var Readlink = simrt.UnsupFunc(real.Readlink, "syscall.Readlink")
var Reboot = simrt.UnsupFunc(real.Reboot, "syscall.Reboot")
var Recvfrom = simrt.UnsupFunc(real.Recvfrom, "syscall.Recvfrom")
var Recvmsg = simrt.UnsupFunc(real.Recvmsg, "syscall.Recvmsg")
var Removexattr = simrt.UnsupFunc(real.Removexattr, "syscall.Removexattr")
var Rename = simrt.UnsupFunc(real.Rename, "syscall.Rename")
var Renameat = simrt.UnsupFunc(real.Renameat, "syscall.Renameat")

type Rlimit = real.Rlimit

var Rmdir = simrt.UnsupFunc(real.Rmdir, "syscall.Rmdir")

type RtAttr = real.RtAttr
type RtGenmsg = real.RtGenmsg
type RtMsg = real.RtMsg
type RtNexthop = real.RtNexthop
type Rusage = real.Rusage

const SCM_CREDENTIALS = real.SCM_CREDENTIALS
const SCM_RIGHTS = real.SCM_RIGHTS
const SCM_TIMESTAMP = real.SCM_TIMESTAMP
const SCM_TIMESTAMPING = real.SCM_TIMESTAMPING
const SCM_TIMESTAMPNS = real.SCM_TIMESTAMPNS
const SHUT_RD = real.SHUT_RD
const SHUT_RDWR = real.SHUT_RDWR
const SHUT_WR = real.SHUT_WR
const SIGABRT = real.SIGABRT
const SIGALRM = real.SIGALRM
const SIGBUS = real.SIGBUS
const SIGCHLD = real.SIGCHLD
const SIGCLD = real.SIGCLD
const SIGCONT = real.SIGCONT
const SIGFPE = real.SIGFPE
const SIGHUP = real.SIGHUP
const SIGILL = real.SIGILL
const SIGINT = real.SIGINT
const SIGIO = real.SIGIO
const SIGIOT = real.SIGIOT
const SIGKILL = real.SIGKILL
const SIGPIPE = real.SIGPIPE
const SIGPOLL = real.SIGPOLL
const SIGPROF = real.SIGPROF
const SIGPWR = real.SIGPWR
const SIGQUIT = real.SIGQUIT
const SIGSEGV = real.SIGSEGV
const SIGSTKFLT = real.SIGSTKFLT
const SIGSTOP = real.SIGSTOP
const SIGSYS = real.SIGSYS
const SIGTERM = real.SIGTERM
const SIGTRAP = real.SIGTRAP
const SIGTSTP = real.SIGTSTP
const SIGTTIN = real.SIGTTIN
const SIGTTOU = real.SIGTTOU
const SIGUNUSED = real.SIGUNUSED
const SIGURG = real.SIGURG
const SIGUSR1 = real.SIGUSR1
const SIGUSR2 = real.SIGUSR2
const SIGVTALRM = real.SIGVTALRM
const SIGWINCH = real.SIGWINCH
const SIGXCPU = real.SIGXCPU
const SIGXFSZ = real.SIGXFSZ
const SIOCADDDLCI = real.SIOCADDDLCI
const SIOCADDMULTI = real.SIOCADDMULTI
const SIOCADDRT = real.SIOCADDRT
const SIOCATMARK = real.SIOCATMARK
const SIOCDARP = real.SIOCDARP
const SIOCDELDLCI = real.SIOCDELDLCI
const SIOCDELMULTI = real.SIOCDELMULTI
const SIOCDELRT = real.SIOCDELRT
const SIOCDEVPRIVATE = real.SIOCDEVPRIVATE
const SIOCDIFADDR = real.SIOCDIFADDR
const SIOCDRARP = real.SIOCDRARP
const SIOCGARP = real.SIOCGARP
const SIOCGIFADDR = real.SIOCGIFADDR
const SIOCGIFBR = real.SIOCGIFBR
const SIOCGIFBRDADDR = real.SIOCGIFBRDADDR
const SIOCGIFCONF = real.SIOCGIFCONF
const SIOCGIFCOUNT = real.SIOCGIFCOUNT
const SIOCGIFDSTADDR = real.SIOCGIFDSTADDR
const SIOCGIFENCAP = real.SIOCGIFENCAP
const SIOCGIFFLAGS = real.SIOCGIFFLAGS
const SIOCGIFHWADDR = real.SIOCGIFHWADDR
const SIOCGIFINDEX = real.SIOCGIFINDEX
const SIOCGIFMAP = real.SIOCGIFMAP
const SIOCGIFMEM = real.SIOCGIFMEM
const SIOCGIFMETRIC = real.SIOCGIFMETRIC
const SIOCGIFMTU = real.SIOCGIFMTU
const SIOCGIFNAME = real.SIOCGIFNAME
const SIOCGIFNETMASK = real.SIOCGIFNETMASK
const SIOCGIFPFLAGS = real.SIOCGIFPFLAGS
const SIOCGIFSLAVE = real.SIOCGIFSLAVE
const SIOCGIFTXQLEN = real.SIOCGIFTXQLEN
const SIOCGPGRP = real.SIOCGPGRP
const SIOCGRARP = real.SIOCGRARP
const SIOCGSTAMP = real.SIOCGSTAMP
const SIOCGSTAMPNS = real.SIOCGSTAMPNS
const SIOCPROTOPRIVATE = real.SIOCPROTOPRIVATE
const SIOCRTMSG = real.SIOCRTMSG
const SIOCSARP = real.SIOCSARP
const SIOCSIFADDR = real.SIOCSIFADDR
const SIOCSIFBR = real.SIOCSIFBR
const SIOCSIFBRDADDR = real.SIOCSIFBRDADDR
const SIOCSIFDSTADDR = real.SIOCSIFDSTADDR
const SIOCSIFENCAP = real.SIOCSIFENCAP
const SIOCSIFFLAGS = real.SIOCSIFFLAGS
const SIOCSIFHWADDR = real.SIOCSIFHWADDR
const SIOCSIFHWBROADCAST = real.SIOCSIFHWBROADCAST
const SIOCSIFLINK = real.SIOCSIFLINK
const SIOCSIFMAP = real.SIOCSIFMAP
const SIOCSIFMEM = real.SIOCSIFMEM
const SIOCSIFMETRIC = real.SIOCSIFMETRIC
const SIOCSIFMTU = real.SIOCSIFMTU
const SIOCSIFNAME = real.SIOCSIFNAME
const SIOCSIFNETMASK = real.SIOCSIFNETMASK
const SIOCSIFPFLAGS = real.SIOCSIFPFLAGS
const SIOCSIFSLAVE = real.SIOCSIFSLAVE
const SIOCSIFTXQLEN = real.SIOCSIFTXQLEN
const SIOCSPGRP = real.SIOCSPGRP
const SIOCSRARP = real.SIOCSRARP
const SOCK_CLOEXEC = real.SOCK_CLOEXEC
const SOCK_DCCP = real.SOCK_DCCP
const SOCK_DGRAM = real.SOCK_DGRAM
const SOCK_NONBLOCK = real.SOCK_NONBLOCK
const SOCK_PACKET = real.SOCK_PACKET
const SOCK_RAW = real.SOCK_RAW
const SOCK_RDM = real.SOCK_RDM
const SOCK_SEQPACKET = real.SOCK_SEQPACKET
const SOCK_STREAM = real.SOCK_STREAM
const SOL_AAL = real.SOL_AAL
const SOL_ATM = real.SOL_ATM
const SOL_DECNET = real.SOL_DECNET
const SOL_ICMPV6 = real.SOL_ICMPV6
const SOL_IP = real.SOL_IP
const SOL_IPV6 = real.SOL_IPV6
const SOL_IRDA = real.SOL_IRDA
const SOL_PACKET = real.SOL_PACKET
const SOL_RAW = real.SOL_RAW
const SOL_SOCKET = real.SOL_SOCKET
const SOL_TCP = real.SOL_TCP
const SOL_X25 = real.SOL_X25
const SOMAXCONN = real.SOMAXCONN
const SO_ACCEPTCONN = real.SO_ACCEPTCONN
const SO_ATTACH_FILTER = real.SO_ATTACH_FILTER
const SO_BINDTODEVICE = real.SO_BINDTODEVICE
const SO_BROADCAST = real.SO_BROADCAST
const SO_BSDCOMPAT = real.SO_BSDCOMPAT
const SO_DEBUG = real.SO_DEBUG
const SO_DETACH_FILTER = real.SO_DETACH_FILTER
const SO_DOMAIN = real.SO_DOMAIN
const SO_DONTROUTE = real.SO_DONTROUTE
const SO_ERROR = real.SO_ERROR
const SO_KEEPALIVE = real.SO_KEEPALIVE
const SO_LINGER = real.SO_LINGER
const SO_MARK = real.SO_MARK
const SO_NO_CHECK = real.SO_NO_CHECK
const SO_OOBINLINE = real.SO_OOBINLINE
const SO_PASSCRED = real.SO_PASSCRED
const SO_PASSSEC = real.SO_PASSSEC
const SO_PEERCRED = real.SO_PEERCRED
const SO_PEERNAME = real.SO_PEERNAME
const SO_PEERSEC = real.SO_PEERSEC
const SO_PRIORITY = real.SO_PRIORITY
const SO_PROTOCOL = real.SO_PROTOCOL
const SO_RCVBUF = real.SO_RCVBUF
const SO_RCVBUFFORCE = real.SO_RCVBUFFORCE
const SO_RCVLOWAT = real.SO_RCVLOWAT
const SO_RCVTIMEO = real.SO_RCVTIMEO
const SO_REUSEADDR = real.SO_REUSEADDR
const SO_RXQ_OVFL = real.SO_RXQ_OVFL
const SO_SECURITY_AUTHENTICATION = real.SO_SECURITY_AUTHENTICATION
const SO_SECURITY_ENCRYPTION_NETWORK = real.SO_SECURITY_ENCRYPTION_NETWORK
const SO_SECURITY_ENCRYPTION_TRANSPORT = real.SO_SECURITY_ENCRYPTION_TRANSPORT
const SO_SNDBUF = real.SO_SNDBUF
const SO_SNDBUFFORCE = real.SO_SNDBUFFORCE
const SO_SNDLOWAT = real.SO_SNDLOWAT
const SO_SNDTIMEO = real.SO_SNDTIMEO
const SO_TIMESTAMP = real.SO_TIMESTAMP
const SO_TIMESTAMPING = real.SO_TIMESTAMPING
const SO_TIMESTAMPNS = real.SO_TIMESTAMPNS
const SO_TYPE = real.SO_TYPE
const SYS_ACCEPT = real.SYS_ACCEPT
const SYS_ACCEPT4 = real.SYS_ACCEPT4
const SYS_ACCESS = real.SYS_ACCESS
const SYS_ACCT = real.SYS_ACCT
const SYS_ADD_KEY = real.SYS_ADD_KEY
const SYS_ADJTIMEX = real.SYS_ADJTIMEX
const SYS_AFS_SYSCALL = real.SYS_AFS_SYSCALL
const SYS_ALARM = real.SYS_ALARM
const SYS_ARCH_PRCTL = real.SYS_ARCH_PRCTL
const SYS_BIND = real.SYS_BIND
const SYS_BRK = real.SYS_BRK
const SYS_CAPGET = real.SYS_CAPGET
const SYS_CAPSET = real.SYS_CAPSET
const SYS_CHDIR = real.SYS_CHDIR
const SYS_CHMOD = real.SYS_CHMOD
const SYS_CHOWN = real.SYS_CHOWN
const SYS_CHROOT = real.SYS_CHROOT
const SYS_CLOCK_GETRES = real.SYS_CLOCK_GETRES
const SYS_CLOCK_GETTIME = real.SYS_CLOCK_GETTIME
const SYS_CLOCK_NANOSLEEP = real.SYS_CLOCK_NANOSLEEP
const SYS_CLOCK_SETTIME = real.SYS_CLOCK_SETTIME
const SYS_CLONE = real.SYS_CLONE
const SYS_CLOSE = real.SYS_CLOSE
const SYS_CONNECT = real.SYS_CONNECT
const SYS_CREAT = real.SYS_CREAT
const SYS_CREATE_MODULE = real.SYS_CREATE_MODULE
const SYS_DELETE_MODULE = real.SYS_DELETE_MODULE
const SYS_DUP = real.SYS_DUP
const SYS_DUP2 = real.SYS_DUP2
const SYS_DUP3 = real.SYS_DUP3
const SYS_EPOLL_CREATE = real.SYS_EPOLL_CREATE
const SYS_EPOLL_CREATE1 = real.SYS_EPOLL_CREATE1
const SYS_EPOLL_CTL = real.SYS_EPOLL_CTL
const SYS_EPOLL_CTL_OLD = real.SYS_EPOLL_CTL_OLD
const SYS_EPOLL_PWAIT = real.SYS_EPOLL_PWAIT
const SYS_EPOLL_WAIT = real.SYS_EPOLL_WAIT
const SYS_EPOLL_WAIT_OLD = real.SYS_EPOLL_WAIT_OLD
const SYS_EVENTFD = real.SYS_EVENTFD
const SYS_EVENTFD2 = real.SYS_EVENTFD2
const SYS_EXECVE = real.SYS_EXECVE
const SYS_EXIT = real.SYS_EXIT
const SYS_EXIT_GROUP = real.SYS_EXIT_GROUP
const SYS_FACCESSAT = real.SYS_FACCESSAT
const SYS_FADVISE64 = real.SYS_FADVISE64
const SYS_FALLOCATE = real.SYS_FALLOCATE
const SYS_FANOTIFY_INIT = real.SYS_FANOTIFY_INIT
const SYS_FANOTIFY_MARK = real.SYS_FANOTIFY_MARK
const SYS_FCHDIR = real.SYS_FCHDIR
const SYS_FCHMOD = real.SYS_FCHMOD
const SYS_FCHMODAT = real.SYS_FCHMODAT
const SYS_FCHOWN = real.SYS_FCHOWN
const SYS_FCHOWNAT = real.SYS_FCHOWNAT
const SYS_FCNTL = real.SYS_FCNTL
const SYS_FDATASYNC = real.SYS_FDATASYNC
const SYS_FGETXATTR = real.SYS_FGETXATTR
const SYS_FLISTXATTR = real.SYS_FLISTXATTR
const SYS_FLOCK = real.SYS_FLOCK
const SYS_FORK = real.SYS_FORK
const SYS_FREMOVEXATTR = real.SYS_FREMOVEXATTR
const SYS_FSETXATTR = real.SYS_FSETXATTR
const SYS_FSTAT = real.SYS_FSTAT
const SYS_FSTATFS = real.SYS_FSTATFS
const SYS_FSYNC = real.SYS_FSYNC
const SYS_FTRUNCATE = real.SYS_FTRUNCATE
const SYS_FUTEX = real.SYS_FUTEX
const SYS_FUTIMESAT = real.SYS_FUTIMESAT
const SYS_GETCWD = real.SYS_GETCWD
const SYS_GETDENTS = real.SYS_GETDENTS
const SYS_GETDENTS64 = real.SYS_GETDENTS64
const SYS_GETEGID = real.SYS_GETEGID
const SYS_GETEUID = real.SYS_GETEUID
const SYS_GETGID = real.SYS_GETGID
const SYS_GETGROUPS = real.SYS_GETGROUPS
const SYS_GETITIMER = real.SYS_GETITIMER
const SYS_GETPEERNAME = real.SYS_GETPEERNAME
const SYS_GETPGID = real.SYS_GETPGID
const SYS_GETPGRP = real.SYS_GETPGRP
const SYS_GETPID = real.SYS_GETPID
const SYS_GETPMSG = real.SYS_GETPMSG
const SYS_GETPPID = real.SYS_GETPPID
const SYS_GETPRIORITY = real.SYS_GETPRIORITY
const SYS_GETRESGID = real.SYS_GETRESGID
const SYS_GETRESUID = real.SYS_GETRESUID
const SYS_GETRLIMIT = real.SYS_GETRLIMIT
const SYS_GETRUSAGE = real.SYS_GETRUSAGE
const SYS_GETSID = real.SYS_GETSID
const SYS_GETSOCKNAME = real.SYS_GETSOCKNAME
const SYS_GETSOCKOPT = real.SYS_GETSOCKOPT
const SYS_GETTID = real.SYS_GETTID
const SYS_GETTIMEOFDAY = real.SYS_GETTIMEOFDAY
const SYS_GETUID = real.SYS_GETUID
const SYS_GETXATTR = real.SYS_GETXATTR
const SYS_GET_KERNEL_SYMS = real.SYS_GET_KERNEL_SYMS
const SYS_GET_MEMPOLICY = real.SYS_GET_MEMPOLICY
const SYS_GET_ROBUST_LIST = real.SYS_GET_ROBUST_LIST
const SYS_GET_THREAD_AREA = real.SYS_GET_THREAD_AREA
const SYS_INIT_MODULE = real.SYS_INIT_MODULE
const SYS_INOTIFY_ADD_WATCH = real.SYS_INOTIFY_ADD_WATCH
const SYS_INOTIFY_INIT = real.SYS_INOTIFY_INIT
const SYS_INOTIFY_INIT1 = real.SYS_INOTIFY_INIT1
const SYS_INOTIFY_RM_WATCH = real.SYS_INOTIFY_RM_WATCH
const SYS_IOCTL = real.SYS_IOCTL
const SYS_IOPERM = real.SYS_IOPERM
const SYS_IOPL = real.SYS_IOPL
const SYS_IOPRIO_GET = real.SYS_IOPRIO_GET
const SYS_IOPRIO_SET = real.SYS_IOPRIO_SET
const SYS_IO_CANCEL = real.SYS_IO_CANCEL
const SYS_IO_DESTROY = real.SYS_IO_DESTROY
const SYS_IO_GETEVENTS = real.SYS_IO_GETEVENTS
const SYS_IO_SETUP = real.SYS_IO_SETUP
const SYS_IO_SUBMIT = real.SYS_IO_SUBMIT
const SYS_KEXEC_LOAD = real.SYS_KEXEC_LOAD
const SYS_KEYCTL = real.SYS_KEYCTL
const SYS_KILL = real.SYS_KILL
const SYS_LCHOWN = real.SYS_LCHOWN
const SYS_LGETXATTR = real.SYS_LGETXATTR
const SYS_LINK = real.SYS_LINK
const SYS_LINKAT = real.SYS_LINKAT
const SYS_LISTEN = real.SYS_LISTEN
const SYS_LISTXATTR = real.SYS_LISTXATTR
const SYS_LLISTXATTR = real.SYS_LLISTXATTR
const SYS_LOOKUP_DCOOKIE = real.SYS_LOOKUP_DCOOKIE
const SYS_LREMOVEXATTR = real.SYS_LREMOVEXATTR
const SYS_LSEEK = real.SYS_LSEEK
const SYS_LSETXATTR = real.SYS_LSETXATTR
const SYS_LSTAT = real.SYS_LSTAT
const SYS_MADVISE = real.SYS_MADVISE
const SYS_MBIND = real.SYS_MBIND
const SYS_MIGRATE_PAGES = real.SYS_MIGRATE_PAGES
const SYS_MINCORE = real.SYS_MINCORE
const SYS_MKDIR = real.SYS_MKDIR
const SYS_MKDIRAT = real.SYS_MKDIRAT
const SYS_MKNOD = real.SYS_MKNOD
const SYS_MKNODAT = real.SYS_MKNODAT
const SYS_MLOCK = real.SYS_MLOCK
const SYS_MLOCKALL = real.SYS_MLOCKALL
const SYS_MMAP = real.SYS_MMAP
const SYS_MODIFY_LDT = real.SYS_MODIFY_LDT
const SYS_MOUNT = real.SYS_MOUNT
const SYS_MOVE_PAGES = real.SYS_MOVE_PAGES
const SYS_MPROTECT = real.SYS_MPROTECT
const SYS_MQ_GETSETATTR = real.SYS_MQ_GETSETATTR
const SYS_MQ_NOTIFY = real.SYS_MQ_NOTIFY
const SYS_MQ_OPEN = real.SYS_MQ_OPEN
const SYS_MQ_TIMEDRECEIVE = real.SYS_MQ_TIMEDRECEIVE
const SYS_MQ_TIMEDSEND = real.SYS_MQ_TIMEDSEND
const SYS_MQ_UNLINK = real.SYS_MQ_UNLINK
const SYS_MREMAP = real.SYS_MREMAP
const SYS_MSGCTL = real.SYS_MSGCTL
const SYS_MSGGET = real.SYS_MSGGET
const SYS_MSGRCV = real.SYS_MSGRCV
const SYS_MSGSND = real.SYS_MSGSND
const SYS_MSYNC = real.SYS_MSYNC
const SYS_MUNLOCK = real.SYS_MUNLOCK
const SYS_MUNLOCKALL = real.SYS_MUNLOCKALL
const SYS_MUNMAP = real.SYS_MUNMAP
const SYS_NANOSLEEP = real.SYS_NANOSLEEP
const SYS_NEWFSTATAT = real.SYS_NEWFSTATAT
const SYS_NFSSERVCTL = real.SYS_NFSSERVCTL
const SYS_OPEN = real.SYS_OPEN
const SYS_OPENAT = real.SYS_OPENAT
const SYS_PAUSE = real.SYS_PAUSE
const SYS_PERF_EVENT_OPEN = real.SYS_PERF_EVENT_OPEN
const SYS_PERSONALITY = real.SYS_PERSONALITY
const SYS_PIPE = real.SYS_PIPE
const SYS_PIPE2 = real.SYS_PIPE2
const SYS_PIVOT_ROOT = real.SYS_PIVOT_ROOT
const SYS_POLL = real.SYS_POLL
const SYS_PPOLL = real.SYS_PPOLL
const SYS_PRCTL = real.SYS_PRCTL
const SYS_PREAD64 = real.SYS_PREAD64
const SYS_PREADV = real.SYS_PREADV
const SYS_PRLIMIT64 = real.SYS_PRLIMIT64
const SYS_PSELECT6 = real.SYS_PSELECT6
const SYS_PTRACE = real.SYS_PTRACE
const SYS_PUTPMSG = real.SYS_PUTPMSG
const SYS_PWRITE64 = real.SYS_PWRITE64
const SYS_PWRITEV = real.SYS_PWRITEV
const SYS_QUERY_MODULE = real.SYS_QUERY_MODULE
const SYS_QUOTACTL = real.SYS_QUOTACTL
const SYS_READ = real.SYS_READ
const SYS_READAHEAD = real.SYS_READAHEAD
const SYS_READLINK = real.SYS_READLINK
const SYS_READLINKAT = real.SYS_READLINKAT
const SYS_READV = real.SYS_READV
const SYS_REBOOT = real.SYS_REBOOT
const SYS_RECVFROM = real.SYS_RECVFROM
const SYS_RECVMMSG = real.SYS_RECVMMSG
const SYS_RECVMSG = real.SYS_RECVMSG
const SYS_REMAP_FILE_PAGES = real.SYS_REMAP_FILE_PAGES
const SYS_REMOVEXATTR = real.SYS_REMOVEXATTR
const SYS_RENAME = real.SYS_RENAME
const SYS_RENAMEAT = real.SYS_RENAMEAT
const SYS_REQUEST_KEY = real.SYS_REQUEST_KEY
const SYS_RESTART_SYSCALL = real.SYS_RESTART_SYSCALL
const SYS_RMDIR = real.SYS_RMDIR
const SYS_RT_SIGACTION = real.SYS_RT_SIGACTION
const SYS_RT_SIGPENDING = real.SYS_RT_SIGPENDING
const SYS_RT_SIGPROCMASK = real.SYS_RT_SIGPROCMASK
const SYS_RT_SIGQUEUEINFO = real.SYS_RT_SIGQUEUEINFO
const SYS_RT_SIGRETURN = real.SYS_RT_SIGRETURN
const SYS_RT_SIGSUSPEND = real.SYS_RT_SIGSUSPEND
const SYS_RT_SIGTIMEDWAIT = real.SYS_RT_SIGTIMEDWAIT
const SYS_RT_TGSIGQUEUEINFO = real.SYS_RT_TGSIGQUEUEINFO
const SYS_SCHED_GETAFFINITY = real.SYS_SCHED_GETAFFINITY
const SYS_SCHED_GETPARAM = real.SYS_SCHED_GETPARAM
const SYS_SCHED_GETSCHEDULER = real.SYS_SCHED_GETSCHEDULER
const SYS_SCHED_GET_PRIORITY_MAX = real.SYS_SCHED_GET_PRIORITY_MAX
const SYS_SCHED_GET_PRIORITY_MIN = real.SYS_SCHED_GET_PRIORITY_MIN
const SYS_SCHED_RR_GET_INTERVAL = real.SYS_SCHED_RR_GET_INTERVAL
const SYS_SCHED_SETAFFINITY = real.SYS_SCHED_SETAFFINITY
const SYS_SCHED_SETPARAM = real.SYS_SCHED_SETPARAM
const SYS_SCHED_SETSCHEDULER = real.SYS_SCHED_SETSCHEDULER
const SYS_SCHED_YIELD = real.SYS_SCHED_YIELD
const SYS_SECURITY = real.SYS_SECURITY
const SYS_SELECT = real.SYS_SELECT
const SYS_SEMCTL = real.SYS_SEMCTL
const SYS_SEMGET = real.SYS_SEMGET
const SYS_SEMOP = real.SYS_SEMOP
const SYS_SEMTIMEDOP = real.SYS_SEMTIMEDOP
const SYS_SENDFILE = real.SYS_SENDFILE
const SYS_SENDMSG = real.SYS_SENDMSG
const SYS_SENDTO = real.SYS_SENDTO
const SYS_SETDOMAINNAME = real.SYS_SETDOMAINNAME
const SYS_SETFSGID = real.SYS_SETFSGID
const SYS_SETFSUID = real.SYS_SETFSUID
const SYS_SETGID = real.SYS_SETGID
const SYS_SETGROUPS = real.SYS_SETGROUPS
const SYS_SETHOSTNAME = real.SYS_SETHOSTNAME
const SYS_SETITIMER = real.SYS_SETITIMER
const SYS_SETPGID = real.SYS_SETPGID
const SYS_SETPRIORITY = real.SYS_SETPRIORITY
const SYS_SETREGID = real.SYS_SETREGID
const SYS_SETRESGID = real.SYS_SETRESGID
const SYS_SETRESUID = real.SYS_SETRESUID
const SYS_SETREUID = real.SYS_SETREUID
const SYS_SETRLIMIT = real.SYS_SETRLIMIT
const SYS_SETSID = real.SYS_SETSID
const SYS_SETSOCKOPT = real.SYS_SETSOCKOPT
const SYS_SETTIMEOFDAY = real.SYS_SETTIMEOFDAY
const SYS_SETUID = real.SYS_SETUID
const SYS_SETXATTR = real.SYS_SETXATTR
const SYS_SET_MEMPOLICY = real.SYS_SET_MEMPOLICY
const SYS_SET_ROBUST_LIST = real.SYS_SET_ROBUST_LIST
const SYS_SET_THREAD_AREA = real.SYS_SET_THREAD_AREA
const SYS_SET_TID_ADDRESS = real.SYS_SET_TID_ADDRESS
const SYS_SHMAT = real.SYS_SHMAT
const SYS_SHMCTL = real.SYS_SHMCTL
const SYS_SHMDT = real.SYS_SHMDT
const SYS_SHMGET = real.SYS_SHMGET
const SYS_SHUTDOWN = real.SYS_SHUTDOWN
const SYS_SIGALTSTACK = real.SYS_SIGALTSTACK
const SYS_SIGNALFD = real.SYS_SIGNALFD
const SYS_SIGNALFD4 = real.SYS_SIGNALFD4
const SYS_SOCKET = real.SYS_SOCKET
const SYS_SOCKETPAIR = real.SYS_SOCKETPAIR
const SYS_SPLICE = real.SYS_SPLICE
const SYS_STAT = real.SYS_STAT
const SYS_STATFS = real.SYS_STATFS
const SYS_SWAPOFF = real.SYS_SWAPOFF
const SYS_SWAPON = real.SYS_SWAPON
const SYS_SYMLINK = real.SYS_SYMLINK
const SYS_SYMLINKAT = real.SYS_SYMLINKAT
const SYS_SYNC = real.SYS_SYNC
const SYS_SYNC_FILE_RANGE = real.SYS_SYNC_FILE_RANGE
const SYS_SYSFS = real.SYS_SYSFS
const SYS_SYSINFO = real.SYS_SYSINFO
const SYS_SYSLOG = real.SYS_SYSLOG
const SYS_TEE = real.SYS_TEE
const SYS_TGKILL = real.SYS_TGKILL
const SYS_TIME = real.SYS_TIME
const SYS_TIMERFD_CREATE = real.SYS_TIMERFD_CREATE
const SYS_TIMERFD_GETTIME = real.SYS_TIMERFD_GETTIME
const SYS_TIMERFD_SETTIME = real.SYS_TIMERFD_SETTIME
const SYS_TIMER_CREATE = real.SYS_TIMER_CREATE
const SYS_TIMER_DELETE = real.SYS_TIMER_DELETE
const SYS_TIMER_GETOVERRUN = real.SYS_TIMER_GETOVERRUN
const SYS_TIMER_GETTIME = real.SYS_TIMER_GETTIME
const SYS_TIMER_SETTIME = real.SYS_TIMER_SETTIME
const SYS_TIMES = real.SYS_TIMES
const SYS_TKILL = real.SYS_TKILL
const SYS_TRUNCATE = real.SYS_TRUNCATE
const SYS_TUXCALL = real.SYS_TUXCALL
const SYS_UMASK = real.SYS_UMASK
const SYS_UMOUNT2 = real.SYS_UMOUNT2
const SYS_UNAME = real.SYS_UNAME
const SYS_UNLINK = real.SYS_UNLINK
const SYS_UNLINKAT = real.SYS_UNLINKAT
const SYS_UNSHARE = real.SYS_UNSHARE
const SYS_USELIB = real.SYS_USELIB
const SYS_USTAT = real.SYS_USTAT
const SYS_UTIME = real.SYS_UTIME
const SYS_UTIMENSAT = real.SYS_UTIMENSAT
const SYS_UTIMES = real.SYS_UTIMES
const SYS_VFORK = real.SYS_VFORK
const SYS_VHANGUP = real.SYS_VHANGUP
const SYS_VMSPLICE = real.SYS_VMSPLICE
const SYS_VSERVER = real.SYS_VSERVER
const SYS_WAIT4 = real.SYS_WAIT4
const SYS_WAITID = real.SYS_WAITID
const SYS_WRITE = real.SYS_WRITE
const SYS_WRITEV = real.SYS_WRITEV
const SYS__SYSCTL = real.SYS__SYSCTL
const S_BLKSIZE = real.S_BLKSIZE
const S_IEXEC = real.S_IEXEC
const S_IFBLK = real.S_IFBLK
const S_IFCHR = real.S_IFCHR
const S_IFDIR = real.S_IFDIR
const S_IFIFO = real.S_IFIFO
const S_IFLNK = real.S_IFLNK
const S_IFMT = real.S_IFMT
const S_IFREG = real.S_IFREG
const S_IFSOCK = real.S_IFSOCK
const S_IREAD = real.S_IREAD
const S_IRGRP = real.S_IRGRP
const S_IROTH = real.S_IROTH
const S_IRUSR = real.S_IRUSR
const S_IRWXG = real.S_IRWXG
const S_IRWXO = real.S_IRWXO
const S_IRWXU = real.S_IRWXU
const S_ISGID = real.S_ISGID
const S_ISUID = real.S_ISUID
const S_ISVTX = real.S_ISVTX
const S_IWGRP = real.S_IWGRP
const S_IWOTH = real.S_IWOTH
const S_IWRITE = real.S_IWRITE
const S_IWUSR = real.S_IWUSR
const S_IXGRP = real.S_IXGRP
const S_IXOTH = real.S_IXOTH
const S_IXUSR = real.S_IXUSR

var Seek = simrt.UnsupFunc(real.Seek, "syscall.Seek")
var Select = simrt.UnsupFunc(real.Select, "syscall.Select")
var Sendfile = simrt.UnsupFunc(real.Sendfile, "syscall.Sendfile")
var Sendmsg = simrt.UnsupFunc(real.Sendmsg, "syscall.Sendmsg")
var SendmsgN = simrt.UnsupFunc(real.SendmsgN, "syscall.SendmsgN")
var Sendto = simrt.UnsupFunc(real.Sendto, "syscall.Sendto")
var SetLsfPromisc = simrt.UnsupFunc(real.SetLsfPromisc, "syscall.SetLsfPromisc")
var SetNonblock = simrt.UnsupFunc(real.SetNonblock, "syscall.SetNonblock")
var Setdomainname = simrt.UnsupFunc(real.Setdomainname, "syscall.Setdomainname")
var Setegid = simrt.UnsupFunc(real.Setegid, "syscall.Setegid")
var Setenv = simrt.UnsupFunc(real.Setenv, "syscall.Setenv")
var Seteuid = simrt.UnsupFunc(real.Seteuid, "syscall.Seteuid")
var Setfsgid = simrt.UnsupFunc(real.Setfsgid, "syscall.Setfsgid")
var Setfsuid = simrt.UnsupFunc(real.Setfsuid, "syscall.Setfsuid")
var Setgid = simrt.UnsupFunc(real.Setgid, "syscall.Setgid")
var Setgroups = simrt.UnsupFunc(real.Setgroups, "syscall.Setgroups")
var Sethostname = simrt.UnsupFunc(real.Sethostname, "syscall.Sethostname")
var Setpgid = simrt.UnsupFunc(real.Setpgid, "syscall.Setpgid")
var Setpriority = simrt.UnsupFunc(real.Setpriority, "syscall.Setpriority")
var Setregid = simrt.UnsupFunc(real.Setregid, "syscall.Setregid")
var Setresgid = simrt.UnsupFunc(real.Setresgid, "syscall.Setresgid")
var Setresuid = simrt.UnsupFunc(real.Setresuid, "syscall.Setresuid")
var Setreuid = simrt.UnsupFunc(real.Setreuid, "syscall.Setreuid")
var Setrlimit = simrt.UnsupFunc(real.Setrlimit, "syscall.Setrlimit")
var Setsid = simrt.UnsupFunc(real.Setsid, "syscall.Setsid")
var SetsockoptICMPv6Filter = simrt.UnsupFunc(real.SetsockoptICMPv6Filter, "syscall.SetsockoptICMPv6Filter")
var SetsockoptIPMreq = simrt.UnsupFunc(real.SetsockoptIPMreq, "syscall.SetsockoptIPMreq")
var SetsockoptIPMreqn = simrt.UnsupFunc(real.SetsockoptIPMreqn, "syscall.SetsockoptIPMreqn")
var SetsockoptIPv6Mreq = simrt.UnsupFunc(real.SetsockoptIPv6Mreq, "syscall.SetsockoptIPv6Mreq")
var SetsockoptInet4Addr = simrt.UnsupFunc(real.SetsockoptInet4Addr, "syscall.SetsockoptInet4Addr")
var SetsockoptLinger = simrt.UnsupFunc(real.SetsockoptLinger, "syscall.SetsockoptLinger")
var SetsockoptTimeval = simrt.UnsupFunc(real.SetsockoptTimeval, "syscall.SetsockoptTimeval")
var Settimeofday = simrt.UnsupFunc(real.Settimeofday, "syscall.Settimeofday")
var Setuid = simrt.UnsupFunc(real.Setuid, "syscall.Setuid")
var Setxattr = simrt.UnsupFunc(real.Setxattr, "syscall.Setxattr")
var Shutdown = simrt.UnsupFunc(real.Shutdown, "syscall.Shutdown")

type Signal = real.Signal

const SizeofCmsghdr = real.SizeofCmsghdr
const SizeofICMPv6Filter = real.SizeofICMPv6Filter
const SizeofIPMreq = real.SizeofIPMreq
const SizeofIPMreqn = real.SizeofIPMreqn
const SizeofIPv6MTUInfo = real.SizeofIPv6MTUInfo
const SizeofIPv6Mreq = real.SizeofIPv6Mreq
const SizeofIfAddrmsg = real.SizeofIfAddrmsg
const SizeofIfInfomsg = real.SizeofIfInfomsg
const SizeofInet4Pktinfo = real.SizeofInet4Pktinfo
const SizeofInet6Pktinfo = real.SizeofInet6Pktinfo
const SizeofInotifyEvent = real.SizeofInotifyEvent
const SizeofLinger = real.SizeofLinger
const SizeofMsghdr = real.SizeofMsghdr
const SizeofNlAttr = real.SizeofNlAttr
const SizeofNlMsgerr = real.SizeofNlMsgerr
const SizeofNlMsghdr = real.SizeofNlMsghdr
const SizeofRtAttr = real.SizeofRtAttr
const SizeofRtGenmsg = real.SizeofRtGenmsg
const SizeofRtMsg = real.SizeofRtMsg
const SizeofRtNexthop = real.SizeofRtNexthop
const SizeofSockFilter = real.SizeofSockFilter
const SizeofSockFprog = real.SizeofSockFprog
const SizeofSockaddrAny = real.SizeofSockaddrAny
const SizeofSockaddrInet4 = real.SizeofSockaddrInet4
const SizeofSockaddrInet6 = real.SizeofSockaddrInet6
const SizeofSockaddrLinklayer = real.SizeofSockaddrLinklayer
const SizeofSockaddrNetlink = real.SizeofSockaddrNetlink
const SizeofSockaddrUnix = real.SizeofSockaddrUnix
const SizeofTCPInfo = real.SizeofTCPInfo
const SizeofUcred = real.SizeofUcred

var SlicePtrFromStrings = simrt.UnsupFunc(real.SlicePtrFromStrings, "syscall.SlicePtrFromStrings")

type SockFilter = real.SockFilter
type SockFprog = real.SockFprog
type Sockaddr = real.Sockaddr
type SockaddrInet4 = real.SockaddrInet4
type SockaddrInet6 = real.SockaddrInet6
type SockaddrLinklayer = real.SockaddrLinklayer
type SockaddrNetlink = real.SockaddrNetlink
type SockaddrUnix = real.SockaddrUnix

var Socket = simrt.UnsupFunc(real.Socket, "syscall.Socket")

type SocketControlMessage = real.SocketControlMessage

var SocketDisableIPv6 = real.SocketDisableIPv6
var Socketpair = simrt.UnsupFunc(real.Socketpair, "syscall.Socketpair")
var Splice = simrt.UnsupFunc(real.Splice, "syscall.Splice")
var StartProcess = simrt.UnsupFunc(real.StartProcess, "syscall.StartProcess")

type Stat_t = real.Stat_t
type Statfs_t = real.Statfs_t

var Stderr = real.Stderr
var Stdin = real.Stdin
var Stdout = real.Stdout
var StringBytePtr = simrt.UnsupFunc(real.StringBytePtr, "syscall.StringBytePtr")
var StringByteSlice = real.StringByteSlice
var StringSlicePtr = simrt.UnsupFunc(real.StringSlicePtr, "syscall.StringSlicePtr")
var Symlink = simrt.UnsupFunc(real.Symlink, "syscall.Symlink")
var SyncFileRange = simrt.UnsupFunc(real.SyncFileRange, "syscall.SyncFileRange")

type SysProcAttr = real.SysProcAttr
type SysProcIDMap = real.SysProcIDMap

var Syscall = simrt.UnsupFunc(real.Syscall, "syscall.Syscall")
var Syscall6 = simrt.UnsupFunc(real.Syscall6, "syscall.Syscall6")
var Sysinfo = simrt.UnsupFunc(real.Sysinfo, "syscall.Sysinfo")

type Sysinfo_t = real.Sysinfo_t

const TCGETS = real.TCGETS
const TCIFLUSH = real.TCIFLUSH
const TCIOFLUSH = real.TCIOFLUSH
const TCOFLUSH = real.TCOFLUSH

type TCPInfo = real.TCPInfo

const TCP_CONGESTION = real.TCP_CONGESTION
const TCP_CORK = real.TCP_CORK
const TCP_DEFER_ACCEPT = real.TCP_DEFER_ACCEPT
const TCP_INFO = real.TCP_INFO
const TCP_KEEPCNT = real.TCP_KEEPCNT
const TCP_KEEPIDLE = real.TCP_KEEPIDLE
const TCP_KEEPINTVL = real.TCP_KEEPINTVL
const TCP_LINGER2 = real.TCP_LINGER2
const TCP_MAXSEG = real.TCP_MAXSEG
const TCP_MAXWIN = real.TCP_MAXWIN
const TCP_MAX_WINSHIFT = real.TCP_MAX_WINSHIFT
const TCP_MD5SIG = real.TCP_MD5SIG
const TCP_MD5SIG_MAXKEYLEN = real.TCP_MD5SIG_MAXKEYLEN
const TCP_MSS = real.TCP_MSS
const TCP_NODELAY = real.TCP_NODELAY
const TCP_QUICKACK = real.TCP_QUICKACK
const TCP_SYNCNT = real.TCP_SYNCNT
const TCP_WINDOW_CLAMP = real.TCP_WINDOW_CLAMP
const TCSETS = real.TCSETS
const TIOCCBRK = real.TIOCCBRK
const TIOCCONS = real.TIOCCONS
const TIOCEXCL = real.TIOCEXCL
const TIOCGDEV = real.TIOCGDEV
const TIOCGETD = real.TIOCGETD
const TIOCGICOUNT = real.TIOCGICOUNT
const TIOCGLCKTRMIOS = real.TIOCGLCKTRMIOS
const TIOCGPGRP = real.TIOCGPGRP
const TIOCGPTN = real.TIOCGPTN
const TIOCGRS485 = real.TIOCGRS485
const TIOCGSERIAL = real.TIOCGSERIAL
const TIOCGSID = real.TIOCGSID
const TIOCGSOFTCAR = real.TIOCGSOFTCAR
const TIOCGWINSZ = real.TIOCGWINSZ
const TIOCINQ = real.TIOCINQ
const TIOCLINUX = real.TIOCLINUX
const TIOCMBIC = real.TIOCMBIC
const TIOCMBIS = real.TIOCMBIS
const TIOCMGET = real.TIOCMGET
const TIOCMIWAIT = real.TIOCMIWAIT
const TIOCMSET = real.TIOCMSET
const TIOCM_CAR = real.TIOCM_CAR
const TIOCM_CD = real.TIOCM_CD
const TIOCM_CTS = real.TIOCM_CTS
const TIOCM_DSR = real.TIOCM_DSR
const TIOCM_DTR = real.TIOCM_DTR
const TIOCM_LE = real.TIOCM_LE
const TIOCM_RI = real.TIOCM_RI
const TIOCM_RNG = real.TIOCM_RNG
const TIOCM_RTS = real.TIOCM_RTS
const TIOCM_SR = real.TIOCM_SR
const TIOCM_ST = real.TIOCM_ST
const TIOCNOTTY = real.TIOCNOTTY
const TIOCNXCL = real.TIOCNXCL
const TIOCOUTQ = real.TIOCOUTQ
const TIOCPKT = real.TIOCPKT
const TIOCPKT_DATA = real.TIOCPKT_DATA
const TIOCPKT_DOSTOP = real.TIOCPKT_DOSTOP
const TIOCPKT_FLUSHREAD = real.TIOCPKT_FLUSHREAD
const TIOCPKT_FLUSHWRITE = real.TIOCPKT_FLUSHWRITE
const TIOCPKT_IOCTL = real.TIOCPKT_IOCTL
const TIOCPKT_NOSTOP = real.TIOCPKT_NOSTOP
const TIOCPKT_START = real.TIOCPKT_START
const TIOCPKT_STOP = real.TIOCPKT_STOP
const TIOCSBRK = real.TIOCSBRK
const TIOCSCTTY = real.TIOCSCTTY
const TIOCSERCONFIG = real.TIOCSERCONFIG
const TIOCSERGETLSR = real.TIOCSERGETLSR
const TIOCSERGETMULTI = real.TIOCSERGETMULTI
const TIOCSERGSTRUCT = real.TIOCSERGSTRUCT
const TIOCSERGWILD = real.TIOCSERGWILD
const TIOCSERSETMULTI = real.TIOCSERSETMULTI
const TIOCSERSWILD = real.TIOCSERSWILD
const TIOCSER_TEMT = real.TIOCSER_TEMT
const TIOCSETD = real.TIOCSETD
const TIOCSIG = real.TIOCSIG
const TIOCSLCKTRMIOS = real.TIOCSLCKTRMIOS
const TIOCSPGRP = real.TIOCSPGRP
const TIOCSPTLCK = real.TIOCSPTLCK
const TIOCSRS485 = real.TIOCSRS485
const TIOCSSERIAL = real.TIOCSSERIAL
const TIOCSSOFTCAR = real.TIOCSSOFTCAR
const TIOCSTI = real.TIOCSTI
const TIOCSWINSZ = real.TIOCSWINSZ
const TOSTOP = real.TOSTOP
const TUNATTACHFILTER = real.TUNATTACHFILTER
const TUNDETACHFILTER = real.TUNDETACHFILTER
const TUNGETFEATURES = real.TUNGETFEATURES
const TUNGETIFF = real.TUNGETIFF
const TUNGETSNDBUF = real.TUNGETSNDBUF
const TUNGETVNETHDRSZ = real.TUNGETVNETHDRSZ
const TUNSETDEBUG = real.TUNSETDEBUG
const TUNSETGROUP = real.TUNSETGROUP
const TUNSETIFF = real.TUNSETIFF
const TUNSETLINK = real.TUNSETLINK
const TUNSETNOCSUM = real.TUNSETNOCSUM
const TUNSETOFFLOAD = real.TUNSETOFFLOAD
const TUNSETOWNER = real.TUNSETOWNER
const TUNSETPERSIST = real.TUNSETPERSIST
const TUNSETSNDBUF = real.TUNSETSNDBUF
const TUNSETTXFILTER = real.TUNSETTXFILTER
const TUNSETVNETHDRSZ = real.TUNSETVNETHDRSZ

var Tee = simrt.UnsupFunc(real.Tee, "syscall.Tee")

type Termios = real.Termios

var Tgkill = simrt.UnsupFunc(real.Tgkill, "syscall.Tgkill")
var Time = simrt.UnsupFunc(real.Time, "syscall.Time")

type Time_t = real.Time_t

var Times = simrt.UnsupFunc(real.Times, "syscall.Times")

type Timespec = real.Timespec

var TimespecToNsec = real.TimespecToNsec

type Timeval = real.Timeval

var TimevalToNsec = real.TimevalToNsec

type Timex = real.Timex
type Tms = real.Tms

var Truncate = simrt.UnsupFunc(real.Truncate, "syscall.Truncate")

type Ucred = real.Ucred

var Umask = simrt.UnsupFunc(real.Umask, "syscall.Umask")
var Uname = simrt.UnsupFunc(real.Uname, "syscall.Uname")
var UnixCredentials = simrt.UnsupFunc(real.UnixCredentials, "syscall.UnixCredentials")
var UnixRights = simrt.UnsupFunc(real.UnixRights, "syscall.UnixRights")
var Unlinkat = simrt.UnsupFunc(real.Unlinkat, "syscall.Unlinkat")
var Unmount = simrt.UnsupFunc(real.Unmount, "syscall.Unmount")
var Unsetenv = simrt.UnsupFunc(real.Unsetenv, "syscall.Unsetenv")
var Unshare = simrt.UnsupFunc(real.Unshare, "syscall.Unshare")
var Ustat = simrt.UnsupFunc(real.Ustat, "syscall.Ustat")

type Ustat_t = real.Ustat_t
type Utimbuf = real.Utimbuf

var Utime = simrt.UnsupFunc(real.Utime, "syscall.Utime")
var Utimes = simrt.UnsupFunc(real.Utimes, "syscall.Utimes")
var UtimesNano = simrt.UnsupFunc(real.UtimesNano, "syscall.UtimesNano")

type Utsname = real.Utsname

const VDISCARD = real.VDISCARD
const VEOF = real.VEOF
const VEOL = real.VEOL
const VEOL2 = real.VEOL2
const VERASE = real.VERASE
const VINTR = real.VINTR
const VKILL = real.VKILL
const VLNEXT = real.VLNEXT
const VMIN = real.VMIN
const VQUIT = real.VQUIT
const VREPRINT = real.VREPRINT
const VSTART = real.VSTART
const VSTOP = real.VSTOP
const VSUSP = real.VSUSP
const VSWTC = real.VSWTC
const VTIME = real.VTIME
const VWERASE = real.VWERASE
const WALL = real.WALL
const WCLONE = real.WCLONE
const WCONTINUED = real.WCONTINUED
const WEXITED = real.WEXITED
const WNOHANG = real.WNOHANG
const WNOTHREAD = real.WNOTHREAD
const WNOWAIT = real.WNOWAIT
const WORDSIZE = real.WORDSIZE
const WSTOPPED = real.WSTOPPED
const WUNTRACED = real.WUNTRACED

var Wait4 = simrt.UnsupFunc(real.Wait4, "syscall.Wait4")

type WaitStatus = real.WaitStatus

var Write = simrt.UnsupFunc(real.Write, "syscall.Write")

const XCASE = real.XCASE
