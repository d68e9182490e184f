// Package vsyscall is package syscall with Getrusage replaceable.  Forwarders: generated.
package vsyscall

import "syscall"

const AF_ALG = syscall.AF_ALG
const AF_APPLETALK = syscall.AF_APPLETALK
const AF_ASH = syscall.AF_ASH
const AF_ATMPVC = syscall.AF_ATMPVC
const AF_ATMSVC = syscall.AF_ATMSVC
const AF_AX25 = syscall.AF_AX25
const AF_BLUETOOTH = syscall.AF_BLUETOOTH
const AF_BRIDGE = syscall.AF_BRIDGE
const AF_CAIF = syscall.AF_CAIF
const AF_CAN = syscall.AF_CAN
const AF_DECnet = syscall.AF_DECnet
const AF_ECONET = syscall.AF_ECONET
const AF_FILE = syscall.AF_FILE
const AF_IEEE802154 = syscall.AF_IEEE802154
const AF_INET = syscall.AF_INET
const AF_INET6 = syscall.AF_INET6
const AF_IPX = syscall.AF_IPX
const AF_IRDA = syscall.AF_IRDA
const AF_ISDN = syscall.AF_ISDN
const AF_IUCV = syscall.AF_IUCV
const AF_KEY = syscall.AF_KEY
const AF_LLC = syscall.AF_LLC
const AF_LOCAL = syscall.AF_LOCAL
const AF_MAX = syscall.AF_MAX
const AF_NETBEUI = syscall.AF_NETBEUI
const AF_NETLINK = syscall.AF_NETLINK
const AF_NETROM = syscall.AF_NETROM
const AF_PACKET = syscall.AF_PACKET
const AF_PHONET = syscall.AF_PHONET
const AF_PPPOX = syscall.AF_PPPOX
const AF_RDS = syscall.AF_RDS
const AF_ROSE = syscall.AF_ROSE
const AF_ROUTE = syscall.AF_ROUTE
const AF_RXRPC = syscall.AF_RXRPC
const AF_SECURITY = syscall.AF_SECURITY
const AF_SNA = syscall.AF_SNA
const AF_TIPC = syscall.AF_TIPC
const AF_UNIX = syscall.AF_UNIX
const AF_UNSPEC = syscall.AF_UNSPEC
const AF_WANPIPE = syscall.AF_WANPIPE
const AF_X25 = syscall.AF_X25
const ARPHRD_ADAPT = syscall.ARPHRD_ADAPT
const ARPHRD_APPLETLK = syscall.ARPHRD_APPLETLK
const ARPHRD_ARCNET = syscall.ARPHRD_ARCNET
const ARPHRD_ASH = syscall.ARPHRD_ASH
const ARPHRD_ATM = syscall.ARPHRD_ATM
const ARPHRD_AX25 = syscall.ARPHRD_AX25
const ARPHRD_BIF = syscall.ARPHRD_BIF
const ARPHRD_CHAOS = syscall.ARPHRD_CHAOS
const ARPHRD_CISCO = syscall.ARPHRD_CISCO
const ARPHRD_CSLIP = syscall.ARPHRD_CSLIP
const ARPHRD_CSLIP6 = syscall.ARPHRD_CSLIP6
const ARPHRD_DDCMP = syscall.ARPHRD_DDCMP
const ARPHRD_DLCI = syscall.ARPHRD_DLCI
const ARPHRD_ECONET = syscall.ARPHRD_ECONET
const ARPHRD_EETHER = syscall.ARPHRD_EETHER
const ARPHRD_ETHER = syscall.ARPHRD_ETHER
const ARPHRD_EUI64 = syscall.ARPHRD_EUI64
const ARPHRD_FCAL = syscall.ARPHRD_FCAL
const ARPHRD_FCFABRIC = syscall.ARPHRD_FCFABRIC
const ARPHRD_FCPL = syscall.ARPHRD_FCPL
const ARPHRD_FCPP = syscall.ARPHRD_FCPP
const ARPHRD_FDDI = syscall.ARPHRD_FDDI
const ARPHRD_FRAD = syscall.ARPHRD_FRAD
const ARPHRD_HDLC = syscall.ARPHRD_HDLC
const ARPHRD_HIPPI = syscall.ARPHRD_HIPPI
const ARPHRD_HWX25 = syscall.ARPHRD_HWX25
const ARPHRD_IEEE1394 = syscall.ARPHRD_IEEE1394
const ARPHRD_IEEE802 = syscall.ARPHRD_IEEE802
const ARPHRD_IEEE80211 = syscall.ARPHRD_IEEE80211
const ARPHRD_IEEE80211_PRISM = syscall.ARPHRD_IEEE80211_PRISM
const ARPHRD_IEEE80211_RADIOTAP = syscall.ARPHRD_IEEE80211_RADIOTAP
const ARPHRD_IEEE802154 = syscall.ARPHRD_IEEE802154
const ARPHRD_IEEE802154_PHY = syscall.ARPHRD_IEEE802154_PHY
const ARPHRD_IEEE802_TR = syscall.ARPHRD_IEEE802_TR
const ARPHRD_INFINIBAND = syscall.ARPHRD_INFINIBAND
const ARPHRD_IPDDP = syscall.ARPHRD_IPDDP
const ARPHRD_IPGRE = syscall.ARPHRD_IPGRE
const ARPHRD_IRDA = syscall.ARPHRD_IRDA
const ARPHRD_LAPB = syscall.ARPHRD_LAPB
const ARPHRD_LOCALTLK = syscall.ARPHRD_LOCALTLK
const ARPHRD_LOOPBACK = syscall.ARPHRD_LOOPBACK
const ARPHRD_METRICOM = syscall.ARPHRD_METRICOM
const ARPHRD_NETROM = syscall.ARPHRD_NETROM
const ARPHRD_NONE = syscall.ARPHRD_NONE
const ARPHRD_PIMREG = syscall.ARPHRD_PIMREG
const ARPHRD_PPP = syscall.ARPHRD_PPP
const ARPHRD_PRONET = syscall.ARPHRD_PRONET
const ARPHRD_RAWHDLC = syscall.ARPHRD_RAWHDLC
const ARPHRD_ROSE = syscall.ARPHRD_ROSE
const ARPHRD_RSRVD = syscall.ARPHRD_RSRVD
const ARPHRD_SIT = syscall.ARPHRD_SIT
const ARPHRD_SKIP = syscall.ARPHRD_SKIP
const ARPHRD_SLIP = syscall.ARPHRD_SLIP
const ARPHRD_SLIP6 = syscall.ARPHRD_SLIP6
const ARPHRD_TUNNEL = syscall.ARPHRD_TUNNEL
const ARPHRD_TUNNEL6 = syscall.ARPHRD_TUNNEL6
const ARPHRD_VOID = syscall.ARPHRD_VOID
const ARPHRD_X25 = syscall.ARPHRD_X25
var Accept = syscall.Accept
var Accept4 = syscall.Accept4
var Access = syscall.Access
var Acct = syscall.Acct
var Adjtimex = syscall.Adjtimex
var AllThreadsSyscall = syscall.AllThreadsSyscall
var AllThreadsSyscall6 = syscall.AllThreadsSyscall6
var AttachLsf = syscall.AttachLsf
const B0 = syscall.B0
const B1000000 = syscall.B1000000
const B110 = syscall.B110
const B115200 = syscall.B115200
const B1152000 = syscall.B1152000
const B1200 = syscall.B1200
const B134 = syscall.B134
const B150 = syscall.B150
const B1500000 = syscall.B1500000
const B1800 = syscall.B1800
const B19200 = syscall.B19200
const B200 = syscall.B200
const B2000000 = syscall.B2000000
const B230400 = syscall.B230400
const B2400 = syscall.B2400
const B2500000 = syscall.B2500000
const B300 = syscall.B300
const B3000000 = syscall.B3000000
const B3500000 = syscall.B3500000
const B38400 = syscall.B38400
const B4000000 = syscall.B4000000
const B460800 = syscall.B460800
const B4800 = syscall.B4800
const B50 = syscall.B50
const B500000 = syscall.B500000
const B57600 = syscall.B57600
const B576000 = syscall.B576000
const B600 = syscall.B600
const B75 = syscall.B75
const B921600 = syscall.B921600
const B9600 = syscall.B9600
const BPF_A = syscall.BPF_A
const BPF_ABS = syscall.BPF_ABS
const BPF_ADD = syscall.BPF_ADD
const BPF_ALU = syscall.BPF_ALU
const BPF_AND = syscall.BPF_AND
const BPF_B = syscall.BPF_B
const BPF_DIV = syscall.BPF_DIV
const BPF_H = syscall.BPF_H
const BPF_IMM = syscall.BPF_IMM
const BPF_IND = syscall.BPF_IND
const BPF_JA = syscall.BPF_JA
const BPF_JEQ = syscall.BPF_JEQ
const BPF_JGE = syscall.BPF_JGE
const BPF_JGT = syscall.BPF_JGT
const BPF_JMP = syscall.BPF_JMP
const BPF_JSET = syscall.BPF_JSET
const BPF_K = syscall.BPF_K
const BPF_LD = syscall.BPF_LD
const BPF_LDX = syscall.BPF_LDX
const BPF_LEN = syscall.BPF_LEN
const BPF_LSH = syscall.BPF_LSH
const BPF_MAJOR_VERSION = syscall.BPF_MAJOR_VERSION
const BPF_MAXINSNS = syscall.BPF_MAXINSNS
const BPF_MEM = syscall.BPF_MEM
const BPF_MEMWORDS = syscall.BPF_MEMWORDS
const BPF_MINOR_VERSION = syscall.BPF_MINOR_VERSION
const BPF_MISC = syscall.BPF_MISC
const BPF_MSH = syscall.BPF_MSH
const BPF_MUL = syscall.BPF_MUL
const BPF_NEG = syscall.BPF_NEG
const BPF_OR = syscall.BPF_OR
const BPF_RET = syscall.BPF_RET
const BPF_RSH = syscall.BPF_RSH
const BPF_ST = syscall.BPF_ST
const BPF_STX = syscall.BPF_STX
const BPF_SUB = syscall.BPF_SUB
const BPF_TAX = syscall.BPF_TAX
const BPF_TXA = syscall.BPF_TXA
const BPF_W = syscall.BPF_W
const BPF_X = syscall.BPF_X
const BRKINT = syscall.BRKINT
var Bind = syscall.Bind
var BindToDevice = syscall.BindToDevice
var BytePtrFromString = syscall.BytePtrFromString
var ByteSliceFromString = syscall.ByteSliceFromString
const CLOCAL = syscall.CLOCAL
const CLONE_CHILD_CLEARTID = syscall.CLONE_CHILD_CLEARTID
const CLONE_CHILD_SETTID = syscall.CLONE_CHILD_SETTID
const CLONE_CLEAR_SIGHAND = syscall.CLONE_CLEAR_SIGHAND
const CLONE_DETACHED = syscall.CLONE_DETACHED
const CLONE_FILES = syscall.CLONE_FILES
const CLONE_FS = syscall.CLONE_FS
const CLONE_INTO_CGROUP = syscall.CLONE_INTO_CGROUP
const CLONE_IO = syscall.CLONE_IO
const CLONE_NEWCGROUP = syscall.CLONE_NEWCGROUP
const CLONE_NEWIPC = syscall.CLONE_NEWIPC
const CLONE_NEWNET = syscall.CLONE_NEWNET
const CLONE_NEWNS = syscall.CLONE_NEWNS
const CLONE_NEWPID = syscall.CLONE_NEWPID
const CLONE_NEWTIME = syscall.CLONE_NEWTIME
const CLONE_NEWUSER = syscall.CLONE_NEWUSER
const CLONE_NEWUTS = syscall.CLONE_NEWUTS
const CLONE_PARENT = syscall.CLONE_PARENT
const CLONE_PARENT_SETTID = syscall.CLONE_PARENT_SETTID
const CLONE_PIDFD = syscall.CLONE_PIDFD
const CLONE_PTRACE = syscall.CLONE_PTRACE
const CLONE_SETTLS = syscall.CLONE_SETTLS
const CLONE_SIGHAND = syscall.CLONE_SIGHAND
const CLONE_SYSVSEM = syscall.CLONE_SYSVSEM
const CLONE_THREAD = syscall.CLONE_THREAD
const CLONE_UNTRACED = syscall.CLONE_UNTRACED
const CLONE_VFORK = syscall.CLONE_VFORK
const CLONE_VM = syscall.CLONE_VM
const CREAD = syscall.CREAD
const CS5 = syscall.CS5
const CS6 = syscall.CS6
const CS7 = syscall.CS7
const CS8 = syscall.CS8
const CSIZE = syscall.CSIZE
const CSTOPB = syscall.CSTOPB
var Chdir = syscall.Chdir
var Chmod = syscall.Chmod
var Chown = syscall.Chown
var Chroot = syscall.Chroot
var Clearenv = syscall.Clearenv
var Close = syscall.Close
var CloseOnExec = syscall.CloseOnExec
var CmsgLen = syscall.CmsgLen
var CmsgSpace = syscall.CmsgSpace
type Cmsghdr = syscall.Cmsghdr
type Conn = syscall.Conn
var Connect = syscall.Connect
var Creat = syscall.Creat
type Credential = syscall.Credential
const DT_BLK = syscall.DT_BLK
const DT_CHR = syscall.DT_CHR
const DT_DIR = syscall.DT_DIR
const DT_FIFO = syscall.DT_FIFO
const DT_LNK = syscall.DT_LNK
const DT_REG = syscall.DT_REG
const DT_SOCK = syscall.DT_SOCK
const DT_UNKNOWN = syscall.DT_UNKNOWN
const DT_WHT = syscall.DT_WHT
var DetachLsf = syscall.DetachLsf
type Dirent = syscall.Dirent
var Dup = syscall.Dup
var Dup2 = syscall.Dup2
var Dup3 = syscall.Dup3
const E2BIG = syscall.E2BIG
const EACCES = syscall.EACCES
const EADDRINUSE = syscall.EADDRINUSE
const EADDRNOTAVAIL = syscall.EADDRNOTAVAIL
const EADV = syscall.EADV
const EAFNOSUPPORT = syscall.EAFNOSUPPORT
const EAGAIN = syscall.EAGAIN
const EALREADY = syscall.EALREADY
const EBADE = syscall.EBADE
const EBADF = syscall.EBADF
const EBADFD = syscall.EBADFD
const EBADMSG = syscall.EBADMSG
const EBADR = syscall.EBADR
const EBADRQC = syscall.EBADRQC
const EBADSLT = syscall.EBADSLT
const EBFONT = syscall.EBFONT
const EBUSY = syscall.EBUSY
const ECANCELED = syscall.ECANCELED
const ECHILD = syscall.ECHILD
const ECHO = syscall.ECHO
const ECHOCTL = syscall.ECHOCTL
const ECHOE = syscall.ECHOE
const ECHOK = syscall.ECHOK
const ECHOKE = syscall.ECHOKE
const ECHONL = syscall.ECHONL
const ECHOPRT = syscall.ECHOPRT
const ECHRNG = syscall.ECHRNG
const ECOMM = syscall.ECOMM
const ECONNABORTED = syscall.ECONNABORTED
const ECONNREFUSED = syscall.ECONNREFUSED
const ECONNRESET = syscall.ECONNRESET
const EDEADLK = syscall.EDEADLK
const EDEADLOCK = syscall.EDEADLOCK
const EDESTADDRREQ = syscall.EDESTADDRREQ
const EDOM = syscall.EDOM
const EDOTDOT = syscall.EDOTDOT
const EDQUOT = syscall.EDQUOT
const EEXIST = syscall.EEXIST
const EFAULT = syscall.EFAULT
const EFBIG = syscall.EFBIG
const EHOSTDOWN = syscall.EHOSTDOWN
const EHOSTUNREACH = syscall.EHOSTUNREACH
const EIDRM = syscall.EIDRM
const EILSEQ = syscall.EILSEQ
const EINPROGRESS = syscall.EINPROGRESS
const EINTR = syscall.EINTR
const EINVAL = syscall.EINVAL
const EIO = syscall.EIO
const EISCONN = syscall.EISCONN
const EISDIR = syscall.EISDIR
const EISNAM = syscall.EISNAM
const EKEYEXPIRED = syscall.EKEYEXPIRED
const EKEYREJECTED = syscall.EKEYREJECTED
const EKEYREVOKED = syscall.EKEYREVOKED
const EL2HLT = syscall.EL2HLT
const EL2NSYNC = syscall.EL2NSYNC
const EL3HLT = syscall.EL3HLT
const EL3RST = syscall.EL3RST
const ELIBACC = syscall.ELIBACC
const ELIBBAD = syscall.ELIBBAD
const ELIBEXEC = syscall.ELIBEXEC
const ELIBMAX = syscall.ELIBMAX
const ELIBSCN = syscall.ELIBSCN
const ELNRNG = syscall.ELNRNG
const ELOOP = syscall.ELOOP
const EMEDIUMTYPE = syscall.EMEDIUMTYPE
const EMFILE = syscall.EMFILE
const EMLINK = syscall.EMLINK
const EMSGSIZE = syscall.EMSGSIZE
const EMULTIHOP = syscall.EMULTIHOP
const ENAMETOOLONG = syscall.ENAMETOOLONG
const ENAVAIL = syscall.ENAVAIL
const ENETDOWN = syscall.ENETDOWN
const ENETRESET = syscall.ENETRESET
const ENETUNREACH = syscall.ENETUNREACH
const ENFILE = syscall.ENFILE
const ENOANO = syscall.ENOANO
const ENOBUFS = syscall.ENOBUFS
const ENOCSI = syscall.ENOCSI
const ENODATA = syscall.ENODATA
const ENODEV = syscall.ENODEV
const ENOENT = syscall.ENOENT
const ENOEXEC = syscall.ENOEXEC
const ENOKEY = syscall.ENOKEY
const ENOLCK = syscall.ENOLCK
const ENOLINK = syscall.ENOLINK
const ENOMEDIUM = syscall.ENOMEDIUM
const ENOMEM = syscall.ENOMEM
const ENOMSG = syscall.ENOMSG
const ENONET = syscall.ENONET
const ENOPKG = syscall.ENOPKG
const ENOPROTOOPT = syscall.ENOPROTOOPT
const ENOSPC = syscall.ENOSPC
const ENOSR = syscall.ENOSR
const ENOSTR = syscall.ENOSTR
const ENOSYS = syscall.ENOSYS
const ENOTBLK = syscall.ENOTBLK
const ENOTCONN = syscall.ENOTCONN
const ENOTDIR = syscall.ENOTDIR
const ENOTEMPTY = syscall.ENOTEMPTY
const ENOTNAM = syscall.ENOTNAM
const ENOTRECOVERABLE = syscall.ENOTRECOVERABLE
const ENOTSOCK = syscall.ENOTSOCK
const ENOTSUP = syscall.ENOTSUP
const ENOTTY = syscall.ENOTTY
const ENOTUNIQ = syscall.ENOTUNIQ
const ENXIO = syscall.ENXIO
const EOPNOTSUPP = syscall.EOPNOTSUPP
const EOVERFLOW = syscall.EOVERFLOW
const EOWNERDEAD = syscall.EOWNERDEAD
const EPERM = syscall.EPERM
const EPFNOSUPPORT = syscall.EPFNOSUPPORT
const EPIPE = syscall.EPIPE
const EPOLLERR = syscall.EPOLLERR
const EPOLLET = syscall.EPOLLET
const EPOLLHUP = syscall.EPOLLHUP
const EPOLLIN = syscall.EPOLLIN
const EPOLLMSG = syscall.EPOLLMSG
const EPOLLONESHOT = syscall.EPOLLONESHOT
const EPOLLOUT = syscall.EPOLLOUT
const EPOLLPRI = syscall.EPOLLPRI
const EPOLLRDBAND = syscall.EPOLLRDBAND
const EPOLLRDHUP = syscall.EPOLLRDHUP
const EPOLLRDNORM = syscall.EPOLLRDNORM
const EPOLLWRBAND = syscall.EPOLLWRBAND
const EPOLLWRNORM = syscall.EPOLLWRNORM
const EPOLL_CLOEXEC = syscall.EPOLL_CLOEXEC
const EPOLL_CTL_ADD = syscall.EPOLL_CTL_ADD
const EPOLL_CTL_DEL = syscall.EPOLL_CTL_DEL
const EPOLL_CTL_MOD = syscall.EPOLL_CTL_MOD
const EPOLL_NONBLOCK = syscall.EPOLL_NONBLOCK
const EPROTO = syscall.EPROTO
const EPROTONOSUPPORT = syscall.EPROTONOSUPPORT
const EPROTOTYPE = syscall.EPROTOTYPE
const ERANGE = syscall.ERANGE
const EREMCHG = syscall.EREMCHG
const EREMOTE = syscall.EREMOTE
const EREMOTEIO = syscall.EREMOTEIO
const ERESTART = syscall.ERESTART
const ERFKILL = syscall.ERFKILL
const EROFS = syscall.EROFS
const ESHUTDOWN = syscall.ESHUTDOWN
const ESOCKTNOSUPPORT = syscall.ESOCKTNOSUPPORT
const ESPIPE = syscall.ESPIPE
const ESRCH = syscall.ESRCH
const ESRMNT = syscall.ESRMNT
const ESTALE = syscall.ESTALE
const ESTRPIPE = syscall.ESTRPIPE
const ETH_P_1588 = syscall.ETH_P_1588
const ETH_P_8021Q = syscall.ETH_P_8021Q
const ETH_P_802_2 = syscall.ETH_P_802_2
const ETH_P_802_3 = syscall.ETH_P_802_3
const ETH_P_AARP = syscall.ETH_P_AARP
const ETH_P_ALL = syscall.ETH_P_ALL
const ETH_P_AOE = syscall.ETH_P_AOE
const ETH_P_ARCNET = syscall.ETH_P_ARCNET
const ETH_P_ARP = syscall.ETH_P_ARP
const ETH_P_ATALK = syscall.ETH_P_ATALK
const ETH_P_ATMFATE = syscall.ETH_P_ATMFATE
const ETH_P_ATMMPOA = syscall.ETH_P_ATMMPOA
const ETH_P_AX25 = syscall.ETH_P_AX25
const ETH_P_BPQ = syscall.ETH_P_BPQ
const ETH_P_CAIF = syscall.ETH_P_CAIF
const ETH_P_CAN = syscall.ETH_P_CAN
const ETH_P_CONTROL = syscall.ETH_P_CONTROL
const ETH_P_CUST = syscall.ETH_P_CUST
const ETH_P_DDCMP = syscall.ETH_P_DDCMP
const ETH_P_DEC = syscall.ETH_P_DEC
const ETH_P_DIAG = syscall.ETH_P_DIAG
const ETH_P_DNA_DL = syscall.ETH_P_DNA_DL
const ETH_P_DNA_RC = syscall.ETH_P_DNA_RC
const ETH_P_DNA_RT = syscall.ETH_P_DNA_RT
const ETH_P_DSA = syscall.ETH_P_DSA
const ETH_P_ECONET = syscall.ETH_P_ECONET
const ETH_P_EDSA = syscall.ETH_P_EDSA
const ETH_P_FCOE = syscall.ETH_P_FCOE
const ETH_P_FIP = syscall.ETH_P_FIP
const ETH_P_HDLC = syscall.ETH_P_HDLC
const ETH_P_IEEE802154 = syscall.ETH_P_IEEE802154
const ETH_P_IEEEPUP = syscall.ETH_P_IEEEPUP
const ETH_P_IEEEPUPAT = syscall.ETH_P_IEEEPUPAT
const ETH_P_IP = syscall.ETH_P_IP
const ETH_P_IPV6 = syscall.ETH_P_IPV6
const ETH_P_IPX = syscall.ETH_P_IPX
const ETH_P_IRDA = syscall.ETH_P_IRDA
const ETH_P_LAT = syscall.ETH_P_LAT
const ETH_P_LINK_CTL = syscall.ETH_P_LINK_CTL
const ETH_P_LOCALTALK = syscall.ETH_P_LOCALTALK
const ETH_P_LOOP = syscall.ETH_P_LOOP
const ETH_P_MOBITEX = syscall.ETH_P_MOBITEX
const ETH_P_MPLS_MC = syscall.ETH_P_MPLS_MC
const ETH_P_MPLS_UC = syscall.ETH_P_MPLS_UC
const ETH_P_PAE = syscall.ETH_P_PAE
const ETH_P_PAUSE = syscall.ETH_P_PAUSE
const ETH_P_PHONET = syscall.ETH_P_PHONET
const ETH_P_PPPTALK = syscall.ETH_P_PPPTALK
const ETH_P_PPP_DISC = syscall.ETH_P_PPP_DISC
const ETH_P_PPP_MP = syscall.ETH_P_PPP_MP
const ETH_P_PPP_SES = syscall.ETH_P_PPP_SES
const ETH_P_PUP = syscall.ETH_P_PUP
const ETH_P_PUPAT = syscall.ETH_P_PUPAT
const ETH_P_RARP = syscall.ETH_P_RARP
const ETH_P_SCA = syscall.ETH_P_SCA
const ETH_P_SLOW = syscall.ETH_P_SLOW
const ETH_P_SNAP = syscall.ETH_P_SNAP
const ETH_P_TEB = syscall.ETH_P_TEB
const ETH_P_TIPC = syscall.ETH_P_TIPC
const ETH_P_TRAILER = syscall.ETH_P_TRAILER
const ETH_P_TR_802_2 = syscall.ETH_P_TR_802_2
const ETH_P_WAN_PPP = syscall.ETH_P_WAN_PPP
const ETH_P_WCCP = syscall.ETH_P_WCCP
const ETH_P_X25 = syscall.ETH_P_X25
const ETIME = syscall.ETIME
const ETIMEDOUT = syscall.ETIMEDOUT
const ETOOMANYREFS = syscall.ETOOMANYREFS
const ETXTBSY = syscall.ETXTBSY
const EUCLEAN = syscall.EUCLEAN
const EUNATCH = syscall.EUNATCH
const EUSERS = syscall.EUSERS
const EWOULDBLOCK = syscall.EWOULDBLOCK
const EXDEV = syscall.EXDEV
const EXFULL = syscall.EXFULL
var Environ = syscall.Environ
var EpollCreate = syscall.EpollCreate
var EpollCreate1 = syscall.EpollCreate1
var EpollCtl = syscall.EpollCtl
type EpollEvent = syscall.EpollEvent
var EpollWait = syscall.EpollWait
type Errno = syscall.Errno
var Exec = syscall.Exec
var Exit = syscall.Exit
const FD_CLOEXEC = syscall.FD_CLOEXEC
const FD_SETSIZE = syscall.FD_SETSIZE
const FLUSHO = syscall.FLUSHO
const F_DUPFD = syscall.F_DUPFD
const F_DUPFD_CLOEXEC = syscall.F_DUPFD_CLOEXEC
const F_EXLCK = syscall.F_EXLCK
const F_GETFD = syscall.F_GETFD
const F_GETFL = syscall.F_GETFL
const F_GETLEASE = syscall.F_GETLEASE
const F_GETLK = syscall.F_GETLK
const F_GETLK64 = syscall.F_GETLK64
const F_GETOWN = syscall.F_GETOWN
const F_GETOWN_EX = syscall.F_GETOWN_EX
const F_GETPIPE_SZ = syscall.F_GETPIPE_SZ
const F_GETSIG = syscall.F_GETSIG
const F_LOCK = syscall.F_LOCK
const F_NOTIFY = syscall.F_NOTIFY
const F_OK = syscall.F_OK
const F_RDLCK = syscall.F_RDLCK
const F_SETFD = syscall.F_SETFD
const F_SETFL = syscall.F_SETFL
const F_SETLEASE = syscall.F_SETLEASE
const F_SETLK = syscall.F_SETLK
const F_SETLK64 = syscall.F_SETLK64
const F_SETLKW = syscall.F_SETLKW
const F_SETLKW64 = syscall.F_SETLKW64
const F_SETOWN = syscall.F_SETOWN
const F_SETOWN_EX = syscall.F_SETOWN_EX
const F_SETPIPE_SZ = syscall.F_SETPIPE_SZ
const F_SETSIG = syscall.F_SETSIG
const F_SHLCK = syscall.F_SHLCK
const F_TEST = syscall.F_TEST
const F_TLOCK = syscall.F_TLOCK
const F_ULOCK = syscall.F_ULOCK
const F_UNLCK = syscall.F_UNLCK
const F_WRLCK = syscall.F_WRLCK
var Faccessat = syscall.Faccessat
var Fallocate = syscall.Fallocate
var Fchdir = syscall.Fchdir
var Fchmod = syscall.Fchmod
var Fchmodat = syscall.Fchmodat
var Fchown = syscall.Fchown
var Fchownat = syscall.Fchownat
var FcntlFlock = syscall.FcntlFlock
type FdSet = syscall.FdSet
var Fdatasync = syscall.Fdatasync
var Flock = syscall.Flock
type Flock_t = syscall.Flock_t
var ForkExec = syscall.ForkExec
var ForkLock = syscall.ForkLock
type Fsid = syscall.Fsid
var Fstat = syscall.Fstat
var Fstatfs = syscall.Fstatfs
var Fsync = syscall.Fsync
var Ftruncate = syscall.Ftruncate
var Futimes = syscall.Futimes
var Futimesat = syscall.Futimesat
var Getcwd = syscall.Getcwd
var Getdents = syscall.Getdents
var Getegid = syscall.Getegid
var Getenv = syscall.Getenv
var Geteuid = syscall.Geteuid
var Getgid = syscall.Getgid
var Getgroups = syscall.Getgroups
var Getpagesize = syscall.Getpagesize
var Getpeername = syscall.Getpeername
var Getpgid = syscall.Getpgid
var Getpgrp = syscall.Getpgrp
var Getpid = syscall.Getpid
var Getppid = syscall.Getppid
var Getpriority = syscall.Getpriority
var Getrlimit = syscall.Getrlimit
var Getsockname = syscall.Getsockname
var GetsockoptICMPv6Filter = syscall.GetsockoptICMPv6Filter
var GetsockoptIPMreq = syscall.GetsockoptIPMreq
var GetsockoptIPMreqn = syscall.GetsockoptIPMreqn
var GetsockoptIPv6MTUInfo = syscall.GetsockoptIPv6MTUInfo
var GetsockoptIPv6Mreq = syscall.GetsockoptIPv6Mreq
var GetsockoptInet4Addr = syscall.GetsockoptInet4Addr
var GetsockoptInt = syscall.GetsockoptInt
var GetsockoptUcred = syscall.GetsockoptUcred
var Gettid = syscall.Gettid
var Gettimeofday = syscall.Gettimeofday
var Getuid = syscall.Getuid
var Getwd = syscall.Getwd
var Getxattr = syscall.Getxattr
const HUPCL = syscall.HUPCL
const ICANON = syscall.ICANON
const ICMPV6_FILTER = syscall.ICMPV6_FILTER
type ICMPv6Filter = syscall.ICMPv6Filter
const ICRNL = syscall.ICRNL
const IEXTEN = syscall.IEXTEN
const IFA_ADDRESS = syscall.IFA_ADDRESS
const IFA_ANYCAST = syscall.IFA_ANYCAST
const IFA_BROADCAST = syscall.IFA_BROADCAST
const IFA_CACHEINFO = syscall.IFA_CACHEINFO
const IFA_F_DADFAILED = syscall.IFA_F_DADFAILED
const IFA_F_DEPRECATED = syscall.IFA_F_DEPRECATED
const IFA_F_HOMEADDRESS = syscall.IFA_F_HOMEADDRESS
const IFA_F_NODAD = syscall.IFA_F_NODAD
const IFA_F_OPTIMISTIC = syscall.IFA_F_OPTIMISTIC
const IFA_F_PERMANENT = syscall.IFA_F_PERMANENT
const IFA_F_SECONDARY = syscall.IFA_F_SECONDARY
const IFA_F_TEMPORARY = syscall.IFA_F_TEMPORARY
const IFA_F_TENTATIVE = syscall.IFA_F_TENTATIVE
const IFA_LABEL = syscall.IFA_LABEL
const IFA_LOCAL = syscall.IFA_LOCAL
const IFA_MAX = syscall.IFA_MAX
const IFA_MULTICAST = syscall.IFA_MULTICAST
const IFA_UNSPEC = syscall.IFA_UNSPEC
const IFF_ALLMULTI = syscall.IFF_ALLMULTI
const IFF_AUTOMEDIA = syscall.IFF_AUTOMEDIA
const IFF_BROADCAST = syscall.IFF_BROADCAST
const IFF_DEBUG = syscall.IFF_DEBUG
const IFF_DYNAMIC = syscall.IFF_DYNAMIC
const IFF_LOOPBACK = syscall.IFF_LOOPBACK
const IFF_MASTER = syscall.IFF_MASTER
const IFF_MULTICAST = syscall.IFF_MULTICAST
const IFF_NOARP = syscall.IFF_NOARP
const IFF_NOTRAILERS = syscall.IFF_NOTRAILERS
const IFF_NO_PI = syscall.IFF_NO_PI
const IFF_ONE_QUEUE = syscall.IFF_ONE_QUEUE
const IFF_POINTOPOINT = syscall.IFF_POINTOPOINT
const IFF_PORTSEL = syscall.IFF_PORTSEL
const IFF_PROMISC = syscall.IFF_PROMISC
const IFF_RUNNING = syscall.IFF_RUNNING
const IFF_SLAVE = syscall.IFF_SLAVE
const IFF_TAP = syscall.IFF_TAP
const IFF_TUN = syscall.IFF_TUN
const IFF_TUN_EXCL = syscall.IFF_TUN_EXCL
const IFF_UP = syscall.IFF_UP
const IFF_VNET_HDR = syscall.IFF_VNET_HDR
const IFLA_ADDRESS = syscall.IFLA_ADDRESS
const IFLA_BROADCAST = syscall.IFLA_BROADCAST
const IFLA_COST = syscall.IFLA_COST
const IFLA_IFALIAS = syscall.IFLA_IFALIAS
const IFLA_IFNAME = syscall.IFLA_IFNAME
const IFLA_LINK = syscall.IFLA_LINK
const IFLA_LINKINFO = syscall.IFLA_LINKINFO
const IFLA_LINKMODE = syscall.IFLA_LINKMODE
const IFLA_MAP = syscall.IFLA_MAP
const IFLA_MASTER = syscall.IFLA_MASTER
const IFLA_MAX = syscall.IFLA_MAX
const IFLA_MTU = syscall.IFLA_MTU
const IFLA_NET_NS_PID = syscall.IFLA_NET_NS_PID
const IFLA_OPERSTATE = syscall.IFLA_OPERSTATE
const IFLA_PRIORITY = syscall.IFLA_PRIORITY
const IFLA_PROTINFO = syscall.IFLA_PROTINFO
const IFLA_QDISC = syscall.IFLA_QDISC
const IFLA_STATS = syscall.IFLA_STATS
const IFLA_TXQLEN = syscall.IFLA_TXQLEN
const IFLA_UNSPEC = syscall.IFLA_UNSPEC
const IFLA_WEIGHT = syscall.IFLA_WEIGHT
const IFLA_WIRELESS = syscall.IFLA_WIRELESS
const IFNAMSIZ = syscall.IFNAMSIZ
const IGNBRK = syscall.IGNBRK
const IGNCR = syscall.IGNCR
const IGNPAR = syscall.IGNPAR
const IMAXBEL = syscall.IMAXBEL
const INLCR = syscall.INLCR
const INPCK = syscall.INPCK
const IN_ACCESS = syscall.IN_ACCESS
const IN_ALL_EVENTS = syscall.IN_ALL_EVENTS
const IN_ATTRIB = syscall.IN_ATTRIB
const IN_CLASSA_HOST = syscall.IN_CLASSA_HOST
const IN_CLASSA_MAX = syscall.IN_CLASSA_MAX
const IN_CLASSA_NET = syscall.IN_CLASSA_NET
const IN_CLASSA_NSHIFT = syscall.IN_CLASSA_NSHIFT
const IN_CLASSB_HOST = syscall.IN_CLASSB_HOST
const IN_CLASSB_MAX = syscall.IN_CLASSB_MAX
const IN_CLASSB_NET = syscall.IN_CLASSB_NET
const IN_CLASSB_NSHIFT = syscall.IN_CLASSB_NSHIFT
const IN_CLASSC_HOST = syscall.IN_CLASSC_HOST
const IN_CLASSC_NET = syscall.IN_CLASSC_NET
const IN_CLASSC_NSHIFT = syscall.IN_CLASSC_NSHIFT
const IN_CLOEXEC = syscall.IN_CLOEXEC
const IN_CLOSE = syscall.IN_CLOSE
const IN_CLOSE_NOWRITE = syscall.IN_CLOSE_NOWRITE
const IN_CLOSE_WRITE = syscall.IN_CLOSE_WRITE
const IN_CREATE = syscall.IN_CREATE
const IN_DELETE = syscall.IN_DELETE
const IN_DELETE_SELF = syscall.IN_DELETE_SELF
const IN_DONT_FOLLOW = syscall.IN_DONT_FOLLOW
const IN_EXCL_UNLINK = syscall.IN_EXCL_UNLINK
const IN_IGNORED = syscall.IN_IGNORED
const IN_ISDIR = syscall.IN_ISDIR
const IN_LOOPBACKNET = syscall.IN_LOOPBACKNET
const IN_MASK_ADD = syscall.IN_MASK_ADD
const IN_MODIFY = syscall.IN_MODIFY
const IN_MOVE = syscall.IN_MOVE
const IN_MOVED_FROM = syscall.IN_MOVED_FROM
const IN_MOVED_TO = syscall.IN_MOVED_TO
const IN_MOVE_SELF = syscall.IN_MOVE_SELF
const IN_NONBLOCK = syscall.IN_NONBLOCK
const IN_ONESHOT = syscall.IN_ONESHOT
const IN_ONLYDIR = syscall.IN_ONLYDIR
const IN_OPEN = syscall.IN_OPEN
const IN_Q_OVERFLOW = syscall.IN_Q_OVERFLOW
const IN_UNMOUNT = syscall.IN_UNMOUNT
type IPMreq = syscall.IPMreq
type IPMreqn = syscall.IPMreqn
const IPPROTO_AH = syscall.IPPROTO_AH
const IPPROTO_COMP = syscall.IPPROTO_COMP
const IPPROTO_DCCP = syscall.IPPROTO_DCCP
const IPPROTO_DSTOPTS = syscall.IPPROTO_DSTOPTS
const IPPROTO_EGP = syscall.IPPROTO_EGP
const IPPROTO_ENCAP = syscall.IPPROTO_ENCAP
const IPPROTO_ESP = syscall.IPPROTO_ESP
const IPPROTO_FRAGMENT = syscall.IPPROTO_FRAGMENT
const IPPROTO_GRE = syscall.IPPROTO_GRE
const IPPROTO_HOPOPTS = syscall.IPPROTO_HOPOPTS
const IPPROTO_ICMP = syscall.IPPROTO_ICMP
const IPPROTO_ICMPV6 = syscall.IPPROTO_ICMPV6
const IPPROTO_IDP = syscall.IPPROTO_IDP
const IPPROTO_IGMP = syscall.IPPROTO_IGMP
const IPPROTO_IP = syscall.IPPROTO_IP
const IPPROTO_IPIP = syscall.IPPROTO_IPIP
const IPPROTO_IPV6 = syscall.IPPROTO_IPV6
const IPPROTO_MTP = syscall.IPPROTO_MTP
const IPPROTO_NONE = syscall.IPPROTO_NONE
const IPPROTO_PIM = syscall.IPPROTO_PIM
const IPPROTO_PUP = syscall.IPPROTO_PUP
const IPPROTO_RAW = syscall.IPPROTO_RAW
const IPPROTO_ROUTING = syscall.IPPROTO_ROUTING
const IPPROTO_RSVP = syscall.IPPROTO_RSVP
const IPPROTO_SCTP = syscall.IPPROTO_SCTP
const IPPROTO_TCP = syscall.IPPROTO_TCP
const IPPROTO_TP = syscall.IPPROTO_TP
const IPPROTO_UDP = syscall.IPPROTO_UDP
const IPPROTO_UDPLITE = syscall.IPPROTO_UDPLITE
const IPV6_2292DSTOPTS = syscall.IPV6_2292DSTOPTS
const IPV6_2292HOPLIMIT = syscall.IPV6_2292HOPLIMIT
const IPV6_2292HOPOPTS = syscall.IPV6_2292HOPOPTS
const IPV6_2292PKTINFO = syscall.IPV6_2292PKTINFO
const IPV6_2292PKTOPTIONS = syscall.IPV6_2292PKTOPTIONS
const IPV6_2292RTHDR = syscall.IPV6_2292RTHDR
const IPV6_ADDRFORM = syscall.IPV6_ADDRFORM
const IPV6_ADD_MEMBERSHIP = syscall.IPV6_ADD_MEMBERSHIP
const IPV6_AUTHHDR = syscall.IPV6_AUTHHDR
const IPV6_CHECKSUM = syscall.IPV6_CHECKSUM
const IPV6_DROP_MEMBERSHIP = syscall.IPV6_DROP_MEMBERSHIP
const IPV6_DSTOPTS = syscall.IPV6_DSTOPTS
const IPV6_HOPLIMIT = syscall.IPV6_HOPLIMIT
const IPV6_HOPOPTS = syscall.IPV6_HOPOPTS
const IPV6_IPSEC_POLICY = syscall.IPV6_IPSEC_POLICY
const IPV6_JOIN_ANYCAST = syscall.IPV6_JOIN_ANYCAST
const IPV6_JOIN_GROUP = syscall.IPV6_JOIN_GROUP
const IPV6_LEAVE_ANYCAST = syscall.IPV6_LEAVE_ANYCAST
const IPV6_LEAVE_GROUP = syscall.IPV6_LEAVE_GROUP
const IPV6_MTU = syscall.IPV6_MTU
const IPV6_MTU_DISCOVER = syscall.IPV6_MTU_DISCOVER
const IPV6_MULTICAST_HOPS = syscall.IPV6_MULTICAST_HOPS
const IPV6_MULTICAST_IF = syscall.IPV6_MULTICAST_IF
const IPV6_MULTICAST_LOOP = syscall.IPV6_MULTICAST_LOOP
const IPV6_NEXTHOP = syscall.IPV6_NEXTHOP
const IPV6_PKTINFO = syscall.IPV6_PKTINFO
const IPV6_PMTUDISC_DO = syscall.IPV6_PMTUDISC_DO
const IPV6_PMTUDISC_DONT = syscall.IPV6_PMTUDISC_DONT
const IPV6_PMTUDISC_PROBE = syscall.IPV6_PMTUDISC_PROBE
const IPV6_PMTUDISC_WANT = syscall.IPV6_PMTUDISC_WANT
const IPV6_RECVDSTOPTS = syscall.IPV6_RECVDSTOPTS
const IPV6_RECVERR = syscall.IPV6_RECVERR
const IPV6_RECVHOPLIMIT = syscall.IPV6_RECVHOPLIMIT
const IPV6_RECVHOPOPTS = syscall.IPV6_RECVHOPOPTS
const IPV6_RECVPKTINFO = syscall.IPV6_RECVPKTINFO
const IPV6_RECVRTHDR = syscall.IPV6_RECVRTHDR
const IPV6_RECVTCLASS = syscall.IPV6_RECVTCLASS
const IPV6_ROUTER_ALERT = syscall.IPV6_ROUTER_ALERT
const IPV6_RTHDR = syscall.IPV6_RTHDR
const IPV6_RTHDRDSTOPTS = syscall.IPV6_RTHDRDSTOPTS
const IPV6_RTHDR_LOOSE = syscall.IPV6_RTHDR_LOOSE
const IPV6_RTHDR_STRICT = syscall.IPV6_RTHDR_STRICT
const IPV6_RTHDR_TYPE_0 = syscall.IPV6_RTHDR_TYPE_0
const IPV6_RXDSTOPTS = syscall.IPV6_RXDSTOPTS
const IPV6_RXHOPOPTS = syscall.IPV6_RXHOPOPTS
const IPV6_TCLASS = syscall.IPV6_TCLASS
const IPV6_UNICAST_HOPS = syscall.IPV6_UNICAST_HOPS
const IPV6_V6ONLY = syscall.IPV6_V6ONLY
const IPV6_XFRM_POLICY = syscall.IPV6_XFRM_POLICY
const IP_ADD_MEMBERSHIP = syscall.IP_ADD_MEMBERSHIP
const IP_ADD_SOURCE_MEMBERSHIP = syscall.IP_ADD_SOURCE_MEMBERSHIP
const IP_BLOCK_SOURCE = syscall.IP_BLOCK_SOURCE
const IP_DEFAULT_MULTICAST_LOOP = syscall.IP_DEFAULT_MULTICAST_LOOP
const IP_DEFAULT_MULTICAST_TTL = syscall.IP_DEFAULT_MULTICAST_TTL
const IP_DF = syscall.IP_DF
const IP_DROP_MEMBERSHIP = syscall.IP_DROP_MEMBERSHIP
const IP_DROP_SOURCE_MEMBERSHIP = syscall.IP_DROP_SOURCE_MEMBERSHIP
const IP_FREEBIND = syscall.IP_FREEBIND
const IP_HDRINCL = syscall.IP_HDRINCL
const IP_IPSEC_POLICY = syscall.IP_IPSEC_POLICY
const IP_MAXPACKET = syscall.IP_MAXPACKET
const IP_MAX_MEMBERSHIPS = syscall.IP_MAX_MEMBERSHIPS
const IP_MF = syscall.IP_MF
const IP_MINTTL = syscall.IP_MINTTL
const IP_MSFILTER = syscall.IP_MSFILTER
const IP_MSS = syscall.IP_MSS
const IP_MTU = syscall.IP_MTU
const IP_MTU_DISCOVER = syscall.IP_MTU_DISCOVER
const IP_MULTICAST_IF = syscall.IP_MULTICAST_IF
const IP_MULTICAST_LOOP = syscall.IP_MULTICAST_LOOP
const IP_MULTICAST_TTL = syscall.IP_MULTICAST_TTL
const IP_OFFMASK = syscall.IP_OFFMASK
const IP_OPTIONS = syscall.IP_OPTIONS
const IP_ORIGDSTADDR = syscall.IP_ORIGDSTADDR
const IP_PASSSEC = syscall.IP_PASSSEC
const IP_PKTINFO = syscall.IP_PKTINFO
const IP_PKTOPTIONS = syscall.IP_PKTOPTIONS
const IP_PMTUDISC = syscall.IP_PMTUDISC
const IP_PMTUDISC_DO = syscall.IP_PMTUDISC_DO
const IP_PMTUDISC_DONT = syscall.IP_PMTUDISC_DONT
const IP_PMTUDISC_PROBE = syscall.IP_PMTUDISC_PROBE
const IP_PMTUDISC_WANT = syscall.IP_PMTUDISC_WANT
const IP_RECVERR = syscall.IP_RECVERR
const IP_RECVOPTS = syscall.IP_RECVOPTS
const IP_RECVORIGDSTADDR = syscall.IP_RECVORIGDSTADDR
const IP_RECVRETOPTS = syscall.IP_RECVRETOPTS
const IP_RECVTOS = syscall.IP_RECVTOS
const IP_RECVTTL = syscall.IP_RECVTTL
const IP_RETOPTS = syscall.IP_RETOPTS
const IP_RF = syscall.IP_RF
const IP_ROUTER_ALERT = syscall.IP_ROUTER_ALERT
const IP_TOS = syscall.IP_TOS
const IP_TRANSPARENT = syscall.IP_TRANSPARENT
const IP_TTL = syscall.IP_TTL
const IP_UNBLOCK_SOURCE = syscall.IP_UNBLOCK_SOURCE
const IP_XFRM_POLICY = syscall.IP_XFRM_POLICY
type IPv6MTUInfo = syscall.IPv6MTUInfo
type IPv6Mreq = syscall.IPv6Mreq
const ISIG = syscall.ISIG
const ISTRIP = syscall.ISTRIP
const IUCLC = syscall.IUCLC
const IUTF8 = syscall.IUTF8
const IXANY = syscall.IXANY
const IXOFF = syscall.IXOFF
const IXON = syscall.IXON
type IfAddrmsg = syscall.IfAddrmsg
type IfInfomsg = syscall.IfInfomsg
const ImplementsGetwd = syscall.ImplementsGetwd
type Inet4Pktinfo = syscall.Inet4Pktinfo
type Inet6Pktinfo = syscall.Inet6Pktinfo
var InotifyAddWatch = syscall.InotifyAddWatch
type InotifyEvent = syscall.InotifyEvent
var InotifyInit = syscall.InotifyInit
var InotifyInit1 = syscall.InotifyInit1
var InotifyRmWatch = syscall.InotifyRmWatch
var Ioperm = syscall.Ioperm
var Iopl = syscall.Iopl
type Iovec = syscall.Iovec
var Kill = syscall.Kill
var Klogctl = syscall.Klogctl
const LINUX_REBOOT_CMD_CAD_OFF = syscall.LINUX_REBOOT_CMD_CAD_OFF
const LINUX_REBOOT_CMD_CAD_ON = syscall.LINUX_REBOOT_CMD_CAD_ON
const LINUX_REBOOT_CMD_HALT = syscall.LINUX_REBOOT_CMD_HALT
const LINUX_REBOOT_CMD_KEXEC = syscall.LINUX_REBOOT_CMD_KEXEC
const LINUX_REBOOT_CMD_POWER_OFF = syscall.LINUX_REBOOT_CMD_POWER_OFF
const LINUX_REBOOT_CMD_RESTART = syscall.LINUX_REBOOT_CMD_RESTART
const LINUX_REBOOT_CMD_RESTART2 = syscall.LINUX_REBOOT_CMD_RESTART2
const LINUX_REBOOT_CMD_SW_SUSPEND = syscall.LINUX_REBOOT_CMD_SW_SUSPEND
const LINUX_REBOOT_MAGIC1 = syscall.LINUX_REBOOT_MAGIC1
const LINUX_REBOOT_MAGIC2 = syscall.LINUX_REBOOT_MAGIC2
const LOCK_EX = syscall.LOCK_EX
const LOCK_NB = syscall.LOCK_NB
const LOCK_SH = syscall.LOCK_SH
const LOCK_UN = syscall.LOCK_UN
var Lchown = syscall.Lchown
type Linger = syscall.Linger
var Link = syscall.Link
var Listen = syscall.Listen
var Listxattr = syscall.Listxattr
var LsfJump = syscall.LsfJump
var LsfSocket = syscall.LsfSocket
var LsfStmt = syscall.LsfStmt
var Lstat = syscall.Lstat
const MADV_DOFORK = syscall.MADV_DOFORK
const MADV_DONTFORK = syscall.MADV_DONTFORK
const MADV_DONTNEED = syscall.MADV_DONTNEED
const MADV_HUGEPAGE = syscall.MADV_HUGEPAGE
const MADV_HWPOISON = syscall.MADV_HWPOISON
const MADV_MERGEABLE = syscall.MADV_MERGEABLE
const MADV_NOHUGEPAGE = syscall.MADV_NOHUGEPAGE
const MADV_NORMAL = syscall.MADV_NORMAL
const MADV_RANDOM = syscall.MADV_RANDOM
const MADV_REMOVE = syscall.MADV_REMOVE
const MADV_SEQUENTIAL = syscall.MADV_SEQUENTIAL
const MADV_UNMERGEABLE = syscall.MADV_UNMERGEABLE
const MADV_WILLNEED = syscall.MADV_WILLNEED
const MAP_32BIT = syscall.MAP_32BIT
const MAP_ANON = syscall.MAP_ANON
const MAP_ANONYMOUS = syscall.MAP_ANONYMOUS
const MAP_DENYWRITE = syscall.MAP_DENYWRITE
const MAP_EXECUTABLE = syscall.MAP_EXECUTABLE
const MAP_FILE = syscall.MAP_FILE
const MAP_FIXED = syscall.MAP_FIXED
const MAP_GROWSDOWN = syscall.MAP_GROWSDOWN
const MAP_HUGETLB = syscall.MAP_HUGETLB
const MAP_LOCKED = syscall.MAP_LOCKED
const MAP_NONBLOCK = syscall.MAP_NONBLOCK
const MAP_NORESERVE = syscall.MAP_NORESERVE
const MAP_POPULATE = syscall.MAP_POPULATE
const MAP_PRIVATE = syscall.MAP_PRIVATE
const MAP_SHARED = syscall.MAP_SHARED
const MAP_STACK = syscall.MAP_STACK
const MAP_TYPE = syscall.MAP_TYPE
const MCL_CURRENT = syscall.MCL_CURRENT
const MCL_FUTURE = syscall.MCL_FUTURE
const MNT_DETACH = syscall.MNT_DETACH
const MNT_EXPIRE = syscall.MNT_EXPIRE
const MNT_FORCE = syscall.MNT_FORCE
const MSG_CMSG_CLOEXEC = syscall.MSG_CMSG_CLOEXEC
const MSG_CONFIRM = syscall.MSG_CONFIRM
const MSG_CTRUNC = syscall.MSG_CTRUNC
const MSG_DONTROUTE = syscall.MSG_DONTROUTE
const MSG_DONTWAIT = syscall.MSG_DONTWAIT
const MSG_EOR = syscall.MSG_EOR
const MSG_ERRQUEUE = syscall.MSG_ERRQUEUE
const MSG_FASTOPEN = syscall.MSG_FASTOPEN
const MSG_FIN = syscall.MSG_FIN
const MSG_MORE = syscall.MSG_MORE
const MSG_NOSIGNAL = syscall.MSG_NOSIGNAL
const MSG_OOB = syscall.MSG_OOB
const MSG_PEEK = syscall.MSG_PEEK
const MSG_PROXY = syscall.MSG_PROXY
const MSG_RST = syscall.MSG_RST
const MSG_SYN = syscall.MSG_SYN
const MSG_TRUNC = syscall.MSG_TRUNC
const MSG_TRYHARD = syscall.MSG_TRYHARD
const MSG_WAITALL = syscall.MSG_WAITALL
const MSG_WAITFORONE = syscall.MSG_WAITFORONE
const MS_ACTIVE = syscall.MS_ACTIVE
const MS_ASYNC = syscall.MS_ASYNC
const MS_BIND = syscall.MS_BIND
const MS_DIRSYNC = syscall.MS_DIRSYNC
const MS_INVALIDATE = syscall.MS_INVALIDATE
const MS_I_VERSION = syscall.MS_I_VERSION
const MS_KERNMOUNT = syscall.MS_KERNMOUNT
const MS_MANDLOCK = syscall.MS_MANDLOCK
const MS_MGC_MSK = syscall.MS_MGC_MSK
const MS_MGC_VAL = syscall.MS_MGC_VAL
const MS_MOVE = syscall.MS_MOVE
const MS_NOATIME = syscall.MS_NOATIME
const MS_NODEV = syscall.MS_NODEV
const MS_NODIRATIME = syscall.MS_NODIRATIME
const MS_NOEXEC = syscall.MS_NOEXEC
const MS_NOSUID = syscall.MS_NOSUID
const MS_NOUSER = syscall.MS_NOUSER
const MS_POSIXACL = syscall.MS_POSIXACL
const MS_PRIVATE = syscall.MS_PRIVATE
const MS_RDONLY = syscall.MS_RDONLY
const MS_REC = syscall.MS_REC
const MS_RELATIME = syscall.MS_RELATIME
const MS_REMOUNT = syscall.MS_REMOUNT
const MS_RMT_MASK = syscall.MS_RMT_MASK
const MS_SHARED = syscall.MS_SHARED
const MS_SILENT = syscall.MS_SILENT
const MS_SLAVE = syscall.MS_SLAVE
const MS_STRICTATIME = syscall.MS_STRICTATIME
const MS_SYNC = syscall.MS_SYNC
const MS_SYNCHRONOUS = syscall.MS_SYNCHRONOUS
const MS_UNBINDABLE = syscall.MS_UNBINDABLE
var Madvise = syscall.Madvise
var Mkdir = syscall.Mkdir
var Mkdirat = syscall.Mkdirat
var Mkfifo = syscall.Mkfifo
var Mknod = syscall.Mknod
var Mknodat = syscall.Mknodat
var Mlock = syscall.Mlock
var Mlockall = syscall.Mlockall
var Mmap = syscall.Mmap
var Mount = syscall.Mount
var Mprotect = syscall.Mprotect
type Msghdr = syscall.Msghdr
var Munlock = syscall.Munlock
var Munlockall = syscall.Munlockall
var Munmap = syscall.Munmap
const NAME_MAX = syscall.NAME_MAX
const NETLINK_ADD_MEMBERSHIP = syscall.NETLINK_ADD_MEMBERSHIP
const NETLINK_AUDIT = syscall.NETLINK_AUDIT
const NETLINK_BROADCAST_ERROR = syscall.NETLINK_BROADCAST_ERROR
const NETLINK_CONNECTOR = syscall.NETLINK_CONNECTOR
const NETLINK_DNRTMSG = syscall.NETLINK_DNRTMSG
const NETLINK_DROP_MEMBERSHIP = syscall.NETLINK_DROP_MEMBERSHIP
const NETLINK_ECRYPTFS = syscall.NETLINK_ECRYPTFS
const NETLINK_FIB_LOOKUP = syscall.NETLINK_FIB_LOOKUP
const NETLINK_FIREWALL = syscall.NETLINK_FIREWALL
const NETLINK_GENERIC = syscall.NETLINK_GENERIC
const NETLINK_INET_DIAG = syscall.NETLINK_INET_DIAG
const NETLINK_IP6_FW = syscall.NETLINK_IP6_FW
const NETLINK_ISCSI = syscall.NETLINK_ISCSI
const NETLINK_KOBJECT_UEVENT = syscall.NETLINK_KOBJECT_UEVENT
const NETLINK_NETFILTER = syscall.NETLINK_NETFILTER
const NETLINK_NFLOG = syscall.NETLINK_NFLOG
const NETLINK_NO_ENOBUFS = syscall.NETLINK_NO_ENOBUFS
const NETLINK_PKTINFO = syscall.NETLINK_PKTINFO
const NETLINK_ROUTE = syscall.NETLINK_ROUTE
const NETLINK_SCSITRANSPORT = syscall.NETLINK_SCSITRANSPORT
const NETLINK_SELINUX = syscall.NETLINK_SELINUX
const NETLINK_UNUSED = syscall.NETLINK_UNUSED
const NETLINK_USERSOCK = syscall.NETLINK_USERSOCK
const NETLINK_XFRM = syscall.NETLINK_XFRM
const NLA_ALIGNTO = syscall.NLA_ALIGNTO
const NLA_F_NESTED = syscall.NLA_F_NESTED
const NLA_F_NET_BYTEORDER = syscall.NLA_F_NET_BYTEORDER
const NLA_HDRLEN = syscall.NLA_HDRLEN
const NLMSG_ALIGNTO = syscall.NLMSG_ALIGNTO
const NLMSG_DONE = syscall.NLMSG_DONE
const NLMSG_ERROR = syscall.NLMSG_ERROR
const NLMSG_HDRLEN = syscall.NLMSG_HDRLEN
const NLMSG_MIN_TYPE = syscall.NLMSG_MIN_TYPE
const NLMSG_NOOP = syscall.NLMSG_NOOP
const NLMSG_OVERRUN = syscall.NLMSG_OVERRUN
const NLM_F_ACK = syscall.NLM_F_ACK
const NLM_F_APPEND = syscall.NLM_F_APPEND
const NLM_F_ATOMIC = syscall.NLM_F_ATOMIC
const NLM_F_CREATE = syscall.NLM_F_CREATE
const NLM_F_DUMP = syscall.NLM_F_DUMP
const NLM_F_ECHO = syscall.NLM_F_ECHO
const NLM_F_EXCL = syscall.NLM_F_EXCL
const NLM_F_MATCH = syscall.NLM_F_MATCH
const NLM_F_MULTI = syscall.NLM_F_MULTI
const NLM_F_REPLACE = syscall.NLM_F_REPLACE
const NLM_F_REQUEST = syscall.NLM_F_REQUEST
const NLM_F_ROOT = syscall.NLM_F_ROOT
const NOFLSH = syscall.NOFLSH
var Nanosleep = syscall.Nanosleep
type NetlinkMessage = syscall.NetlinkMessage
var NetlinkRIB = syscall.NetlinkRIB
type NetlinkRouteAttr = syscall.NetlinkRouteAttr
type NetlinkRouteRequest = syscall.NetlinkRouteRequest
type NlAttr = syscall.NlAttr
type NlMsgerr = syscall.NlMsgerr
type NlMsghdr = syscall.NlMsghdr
var NsecToTimespec = syscall.NsecToTimespec
var NsecToTimeval = syscall.NsecToTimeval
const OCRNL = syscall.OCRNL
const OFDEL = syscall.OFDEL
const OFILL = syscall.OFILL
const OLCUC = syscall.OLCUC
const ONLCR = syscall.ONLCR
const ONLRET = syscall.ONLRET
const ONOCR = syscall.ONOCR
const OPOST = syscall.OPOST
const O_ACCMODE = syscall.O_ACCMODE
const O_APPEND = syscall.O_APPEND
const O_ASYNC = syscall.O_ASYNC
const O_CLOEXEC = syscall.O_CLOEXEC
const O_CREAT = syscall.O_CREAT
const O_DIRECT = syscall.O_DIRECT
const O_DIRECTORY = syscall.O_DIRECTORY
const O_DSYNC = syscall.O_DSYNC
const O_EXCL = syscall.O_EXCL
const O_FSYNC = syscall.O_FSYNC
const O_LARGEFILE = syscall.O_LARGEFILE
const O_NDELAY = syscall.O_NDELAY
const O_NOATIME = syscall.O_NOATIME
const O_NOCTTY = syscall.O_NOCTTY
const O_NOFOLLOW = syscall.O_NOFOLLOW
const O_NONBLOCK = syscall.O_NONBLOCK
const O_RDONLY = syscall.O_RDONLY
const O_RDWR = syscall.O_RDWR
const O_RSYNC = syscall.O_RSYNC
const O_SYNC = syscall.O_SYNC
const O_TRUNC = syscall.O_TRUNC
const O_WRONLY = syscall.O_WRONLY
var Open = syscall.Open
var Openat = syscall.Openat
const PACKET_ADD_MEMBERSHIP = syscall.PACKET_ADD_MEMBERSHIP
const PACKET_BROADCAST = syscall.PACKET_BROADCAST
const PACKET_DROP_MEMBERSHIP = syscall.PACKET_DROP_MEMBERSHIP
const PACKET_FASTROUTE = syscall.PACKET_FASTROUTE
const PACKET_HOST = syscall.PACKET_HOST
const PACKET_LOOPBACK = syscall.PACKET_LOOPBACK
const PACKET_MR_ALLMULTI = syscall.PACKET_MR_ALLMULTI
const PACKET_MR_MULTICAST = syscall.PACKET_MR_MULTICAST
const PACKET_MR_PROMISC = syscall.PACKET_MR_PROMISC
const PACKET_MULTICAST = syscall.PACKET_MULTICAST
const PACKET_OTHERHOST = syscall.PACKET_OTHERHOST
const PACKET_OUTGOING = syscall.PACKET_OUTGOING
const PACKET_RECV_OUTPUT = syscall.PACKET_RECV_OUTPUT
const PACKET_RX_RING = syscall.PACKET_RX_RING
const PACKET_STATISTICS = syscall.PACKET_STATISTICS
const PARENB = syscall.PARENB
const PARMRK = syscall.PARMRK
const PARODD = syscall.PARODD
const PENDIN = syscall.PENDIN
const PRIO_PGRP = syscall.PRIO_PGRP
const PRIO_PROCESS = syscall.PRIO_PROCESS
const PRIO_USER = syscall.PRIO_USER
const PROT_EXEC = syscall.PROT_EXEC
const PROT_GROWSDOWN = syscall.PROT_GROWSDOWN
const PROT_GROWSUP = syscall.PROT_GROWSUP
const PROT_NONE = syscall.PROT_NONE
const PROT_READ = syscall.PROT_READ
const PROT_WRITE = syscall.PROT_WRITE
const PR_CAPBSET_DROP = syscall.PR_CAPBSET_DROP
const PR_CAPBSET_READ = syscall.PR_CAPBSET_READ
const PR_ENDIAN_BIG = syscall.PR_ENDIAN_BIG
const PR_ENDIAN_LITTLE = syscall.PR_ENDIAN_LITTLE
const PR_ENDIAN_PPC_LITTLE = syscall.PR_ENDIAN_PPC_LITTLE
const PR_FPEMU_NOPRINT = syscall.PR_FPEMU_NOPRINT
const PR_FPEMU_SIGFPE = syscall.PR_FPEMU_SIGFPE
const PR_FP_EXC_ASYNC = syscall.PR_FP_EXC_ASYNC
const PR_FP_EXC_DISABLED = syscall.PR_FP_EXC_DISABLED
const PR_FP_EXC_DIV = syscall.PR_FP_EXC_DIV
const PR_FP_EXC_INV = syscall.PR_FP_EXC_INV
const PR_FP_EXC_NONRECOV = syscall.PR_FP_EXC_NONRECOV
const PR_FP_EXC_OVF = syscall.PR_FP_EXC_OVF
const PR_FP_EXC_PRECISE = syscall.PR_FP_EXC_PRECISE
const PR_FP_EXC_RES = syscall.PR_FP_EXC_RES
const PR_FP_EXC_SW_ENABLE = syscall.PR_FP_EXC_SW_ENABLE
const PR_FP_EXC_UND = syscall.PR_FP_EXC_UND
const PR_GET_DUMPABLE = syscall.PR_GET_DUMPABLE
const PR_GET_ENDIAN = syscall.PR_GET_ENDIAN
const PR_GET_FPEMU = syscall.PR_GET_FPEMU
const PR_GET_FPEXC = syscall.PR_GET_FPEXC
const PR_GET_KEEPCAPS = syscall.PR_GET_KEEPCAPS
const PR_GET_NAME = syscall.PR_GET_NAME
const PR_GET_PDEATHSIG = syscall.PR_GET_PDEATHSIG
const PR_GET_SECCOMP = syscall.PR_GET_SECCOMP
const PR_GET_SECUREBITS = syscall.PR_GET_SECUREBITS
const PR_GET_TIMERSLACK = syscall.PR_GET_TIMERSLACK
const PR_GET_TIMING = syscall.PR_GET_TIMING
const PR_GET_TSC = syscall.PR_GET_TSC
const PR_GET_UNALIGN = syscall.PR_GET_UNALIGN
const PR_MCE_KILL = syscall.PR_MCE_KILL
const PR_MCE_KILL_CLEAR = syscall.PR_MCE_KILL_CLEAR
const PR_MCE_KILL_DEFAULT = syscall.PR_MCE_KILL_DEFAULT
const PR_MCE_KILL_EARLY = syscall.PR_MCE_KILL_EARLY
const PR_MCE_KILL_GET = syscall.PR_MCE_KILL_GET
const PR_MCE_KILL_LATE = syscall.PR_MCE_KILL_LATE
const PR_MCE_KILL_SET = syscall.PR_MCE_KILL_SET
const PR_SET_DUMPABLE = syscall.PR_SET_DUMPABLE
const PR_SET_ENDIAN = syscall.PR_SET_ENDIAN
const PR_SET_FPEMU = syscall.PR_SET_FPEMU
const PR_SET_FPEXC = syscall.PR_SET_FPEXC
const PR_SET_KEEPCAPS = syscall.PR_SET_KEEPCAPS
const PR_SET_NAME = syscall.PR_SET_NAME
const PR_SET_PDEATHSIG = syscall.PR_SET_PDEATHSIG
const PR_SET_PTRACER = syscall.PR_SET_PTRACER
const PR_SET_SECCOMP = syscall.PR_SET_SECCOMP
const PR_SET_SECUREBITS = syscall.PR_SET_SECUREBITS
const PR_SET_TIMERSLACK = syscall.PR_SET_TIMERSLACK
const PR_SET_TIMING = syscall.PR_SET_TIMING
const PR_SET_TSC = syscall.PR_SET_TSC
const PR_SET_UNALIGN = syscall.PR_SET_UNALIGN
const PR_TASK_PERF_EVENTS_DISABLE = syscall.PR_TASK_PERF_EVENTS_DISABLE
const PR_TASK_PERF_EVENTS_ENABLE = syscall.PR_TASK_PERF_EVENTS_ENABLE
const PR_TIMING_STATISTICAL = syscall.PR_TIMING_STATISTICAL
const PR_TIMING_TIMESTAMP = syscall.PR_TIMING_TIMESTAMP
const PR_TSC_ENABLE = syscall.PR_TSC_ENABLE
const PR_TSC_SIGSEGV = syscall.PR_TSC_SIGSEGV
const PR_UNALIGN_NOPRINT = syscall.PR_UNALIGN_NOPRINT
const PR_UNALIGN_SIGBUS = syscall.PR_UNALIGN_SIGBUS
const PTRACE_ARCH_PRCTL = syscall.PTRACE_ARCH_PRCTL
const PTRACE_ATTACH = syscall.PTRACE_ATTACH
const PTRACE_CONT = syscall.PTRACE_CONT
const PTRACE_DETACH = syscall.PTRACE_DETACH
const PTRACE_EVENT_CLONE = syscall.PTRACE_EVENT_CLONE
const PTRACE_EVENT_EXEC = syscall.PTRACE_EVENT_EXEC
const PTRACE_EVENT_EXIT = syscall.PTRACE_EVENT_EXIT
const PTRACE_EVENT_FORK = syscall.PTRACE_EVENT_FORK
const PTRACE_EVENT_VFORK = syscall.PTRACE_EVENT_VFORK
const PTRACE_EVENT_VFORK_DONE = syscall.PTRACE_EVENT_VFORK_DONE
const PTRACE_GETEVENTMSG = syscall.PTRACE_GETEVENTMSG
const PTRACE_GETFPREGS = syscall.PTRACE_GETFPREGS
const PTRACE_GETFPXREGS = syscall.PTRACE_GETFPXREGS
const PTRACE_GETREGS = syscall.PTRACE_GETREGS
const PTRACE_GETREGSET = syscall.PTRACE_GETREGSET
const PTRACE_GETSIGINFO = syscall.PTRACE_GETSIGINFO
const PTRACE_GET_THREAD_AREA = syscall.PTRACE_GET_THREAD_AREA
const PTRACE_KILL = syscall.PTRACE_KILL
const PTRACE_OLDSETOPTIONS = syscall.PTRACE_OLDSETOPTIONS
const PTRACE_O_MASK = syscall.PTRACE_O_MASK
const PTRACE_O_TRACECLONE = syscall.PTRACE_O_TRACECLONE
const PTRACE_O_TRACEEXEC = syscall.PTRACE_O_TRACEEXEC
const PTRACE_O_TRACEEXIT = syscall.PTRACE_O_TRACEEXIT
const PTRACE_O_TRACEFORK = syscall.PTRACE_O_TRACEFORK
const PTRACE_O_TRACESYSGOOD = syscall.PTRACE_O_TRACESYSGOOD
const PTRACE_O_TRACEVFORK = syscall.PTRACE_O_TRACEVFORK
const PTRACE_O_TRACEVFORKDONE = syscall.PTRACE_O_TRACEVFORKDONE
const PTRACE_PEEKDATA = syscall.PTRACE_PEEKDATA
const PTRACE_PEEKTEXT = syscall.PTRACE_PEEKTEXT
const PTRACE_PEEKUSR = syscall.PTRACE_PEEKUSR
const PTRACE_POKEDATA = syscall.PTRACE_POKEDATA
const PTRACE_POKETEXT = syscall.PTRACE_POKETEXT
const PTRACE_POKEUSR = syscall.PTRACE_POKEUSR
const PTRACE_SETFPREGS = syscall.PTRACE_SETFPREGS
const PTRACE_SETFPXREGS = syscall.PTRACE_SETFPXREGS
const PTRACE_SETOPTIONS = syscall.PTRACE_SETOPTIONS
const PTRACE_SETREGS = syscall.PTRACE_SETREGS
const PTRACE_SETREGSET = syscall.PTRACE_SETREGSET
const PTRACE_SETSIGINFO = syscall.PTRACE_SETSIGINFO
const PTRACE_SET_THREAD_AREA = syscall.PTRACE_SET_THREAD_AREA
const PTRACE_SINGLEBLOCK = syscall.PTRACE_SINGLEBLOCK
const PTRACE_SINGLESTEP = syscall.PTRACE_SINGLESTEP
const PTRACE_SYSCALL = syscall.PTRACE_SYSCALL
const PTRACE_SYSEMU = syscall.PTRACE_SYSEMU
const PTRACE_SYSEMU_SINGLESTEP = syscall.PTRACE_SYSEMU_SINGLESTEP
const PTRACE_TRACEME = syscall.PTRACE_TRACEME
var ParseDirent = syscall.ParseDirent
var ParseNetlinkMessage = syscall.ParseNetlinkMessage
var ParseNetlinkRouteAttr = syscall.ParseNetlinkRouteAttr
var ParseSocketControlMessage = syscall.ParseSocketControlMessage
var ParseUnixCredentials = syscall.ParseUnixCredentials
var ParseUnixRights = syscall.ParseUnixRights
const PathMax = syscall.PathMax
var Pause = syscall.Pause
var Pipe = syscall.Pipe
var Pipe2 = syscall.Pipe2
var PivotRoot = syscall.PivotRoot
var Pread = syscall.Pread
type ProcAttr = syscall.ProcAttr
var PtraceAttach = syscall.PtraceAttach
var PtraceCont = syscall.PtraceCont
var PtraceDetach = syscall.PtraceDetach
var PtraceGetEventMsg = syscall.PtraceGetEventMsg
var PtraceGetRegs = syscall.PtraceGetRegs
var PtracePeekData = syscall.PtracePeekData
var PtracePeekText = syscall.PtracePeekText
var PtracePokeData = syscall.PtracePokeData
var PtracePokeText = syscall.PtracePokeText
type PtraceRegs = syscall.PtraceRegs
var PtraceSetOptions = syscall.PtraceSetOptions
var PtraceSetRegs = syscall.PtraceSetRegs
var PtraceSingleStep = syscall.PtraceSingleStep
var PtraceSyscall = syscall.PtraceSyscall
var Pwrite = syscall.Pwrite
const RLIMIT_AS = syscall.RLIMIT_AS
const RLIMIT_CORE = syscall.RLIMIT_CORE
const RLIMIT_CPU = syscall.RLIMIT_CPU
const RLIMIT_DATA = syscall.RLIMIT_DATA
const RLIMIT_FSIZE = syscall.RLIMIT_FSIZE
const RLIMIT_NOFILE = syscall.RLIMIT_NOFILE
const RLIMIT_STACK = syscall.RLIMIT_STACK
const RLIM_INFINITY = syscall.RLIM_INFINITY
const RTAX_ADVMSS = syscall.RTAX_ADVMSS
const RTAX_CWND = syscall.RTAX_CWND
const RTAX_FEATURES = syscall.RTAX_FEATURES
const RTAX_FEATURE_ALLFRAG = syscall.RTAX_FEATURE_ALLFRAG
const RTAX_FEATURE_ECN = syscall.RTAX_FEATURE_ECN
const RTAX_FEATURE_SACK = syscall.RTAX_FEATURE_SACK
const RTAX_FEATURE_TIMESTAMP = syscall.RTAX_FEATURE_TIMESTAMP
const RTAX_HOPLIMIT = syscall.RTAX_HOPLIMIT
const RTAX_INITCWND = syscall.RTAX_INITCWND
const RTAX_INITRWND = syscall.RTAX_INITRWND
const RTAX_LOCK = syscall.RTAX_LOCK
const RTAX_MAX = syscall.RTAX_MAX
const RTAX_MTU = syscall.RTAX_MTU
const RTAX_REORDERING = syscall.RTAX_REORDERING
const RTAX_RTO_MIN = syscall.RTAX_RTO_MIN
const RTAX_RTT = syscall.RTAX_RTT
const RTAX_RTTVAR = syscall.RTAX_RTTVAR
const RTAX_SSTHRESH = syscall.RTAX_SSTHRESH
const RTAX_UNSPEC = syscall.RTAX_UNSPEC
const RTAX_WINDOW = syscall.RTAX_WINDOW
const RTA_ALIGNTO = syscall.RTA_ALIGNTO
const RTA_CACHEINFO = syscall.RTA_CACHEINFO
const RTA_DST = syscall.RTA_DST
const RTA_FLOW = syscall.RTA_FLOW
const RTA_GATEWAY = syscall.RTA_GATEWAY
const RTA_IIF = syscall.RTA_IIF
const RTA_MAX = syscall.RTA_MAX
const RTA_METRICS = syscall.RTA_METRICS
const RTA_MULTIPATH = syscall.RTA_MULTIPATH
const RTA_OIF = syscall.RTA_OIF
const RTA_PREFSRC = syscall.RTA_PREFSRC
const RTA_PRIORITY = syscall.RTA_PRIORITY
const RTA_SRC = syscall.RTA_SRC
const RTA_TABLE = syscall.RTA_TABLE
const RTA_UNSPEC = syscall.RTA_UNSPEC
const RTCF_DIRECTSRC = syscall.RTCF_DIRECTSRC
const RTCF_DOREDIRECT = syscall.RTCF_DOREDIRECT
const RTCF_LOG = syscall.RTCF_LOG
const RTCF_MASQ = syscall.RTCF_MASQ
const RTCF_NAT = syscall.RTCF_NAT
const RTCF_VALVE = syscall.RTCF_VALVE
const RTF_ADDRCLASSMASK = syscall.RTF_ADDRCLASSMASK
const RTF_ADDRCONF = syscall.RTF_ADDRCONF
const RTF_ALLONLINK = syscall.RTF_ALLONLINK
const RTF_BROADCAST = syscall.RTF_BROADCAST
const RTF_CACHE = syscall.RTF_CACHE
const RTF_DEFAULT = syscall.RTF_DEFAULT
const RTF_DYNAMIC = syscall.RTF_DYNAMIC
const RTF_FLOW = syscall.RTF_FLOW
const RTF_GATEWAY = syscall.RTF_GATEWAY
const RTF_HOST = syscall.RTF_HOST
const RTF_INTERFACE = syscall.RTF_INTERFACE
const RTF_IRTT = syscall.RTF_IRTT
const RTF_LINKRT = syscall.RTF_LINKRT
const RTF_LOCAL = syscall.RTF_LOCAL
const RTF_MODIFIED = syscall.RTF_MODIFIED
const RTF_MSS = syscall.RTF_MSS
const RTF_MTU = syscall.RTF_MTU
const RTF_MULTICAST = syscall.RTF_MULTICAST
const RTF_NAT = syscall.RTF_NAT
const RTF_NOFORWARD = syscall.RTF_NOFORWARD
const RTF_NONEXTHOP = syscall.RTF_NONEXTHOP
const RTF_NOPMTUDISC = syscall.RTF_NOPMTUDISC
const RTF_POLICY = syscall.RTF_POLICY
const RTF_REINSTATE = syscall.RTF_REINSTATE
const RTF_REJECT = syscall.RTF_REJECT
const RTF_STATIC = syscall.RTF_STATIC
const RTF_THROW = syscall.RTF_THROW
const RTF_UP = syscall.RTF_UP
const RTF_WINDOW = syscall.RTF_WINDOW
const RTF_XRESOLVE = syscall.RTF_XRESOLVE
const RTM_BASE = syscall.RTM_BASE
const RTM_DELACTION = syscall.RTM_DELACTION
const RTM_DELADDR = syscall.RTM_DELADDR
const RTM_DELADDRLABEL = syscall.RTM_DELADDRLABEL
const RTM_DELLINK = syscall.RTM_DELLINK
const RTM_DELNEIGH = syscall.RTM_DELNEIGH
const RTM_DELQDISC = syscall.RTM_DELQDISC
const RTM_DELROUTE = syscall.RTM_DELROUTE
const RTM_DELRULE = syscall.RTM_DELRULE
const RTM_DELTCLASS = syscall.RTM_DELTCLASS
const RTM_DELTFILTER = syscall.RTM_DELTFILTER
const RTM_F_CLONED = syscall.RTM_F_CLONED
const RTM_F_EQUALIZE = syscall.RTM_F_EQUALIZE
const RTM_F_NOTIFY = syscall.RTM_F_NOTIFY
const RTM_F_PREFIX = syscall.RTM_F_PREFIX
const RTM_GETACTION = syscall.RTM_GETACTION
const RTM_GETADDR = syscall.RTM_GETADDR
const RTM_GETADDRLABEL = syscall.RTM_GETADDRLABEL
const RTM_GETANYCAST = syscall.RTM_GETANYCAST
const RTM_GETDCB = syscall.RTM_GETDCB
const RTM_GETLINK = syscall.RTM_GETLINK
const RTM_GETMULTICAST = syscall.RTM_GETMULTICAST
const RTM_GETNEIGH = syscall.RTM_GETNEIGH
const RTM_GETNEIGHTBL = syscall.RTM_GETNEIGHTBL
const RTM_GETQDISC = syscall.RTM_GETQDISC
const RTM_GETROUTE = syscall.RTM_GETROUTE
const RTM_GETRULE = syscall.RTM_GETRULE
const RTM_GETTCLASS = syscall.RTM_GETTCLASS
const RTM_GETTFILTER = syscall.RTM_GETTFILTER
const RTM_MAX = syscall.RTM_MAX
const RTM_NEWACTION = syscall.RTM_NEWACTION
const RTM_NEWADDR = syscall.RTM_NEWADDR
const RTM_NEWADDRLABEL = syscall.RTM_NEWADDRLABEL
const RTM_NEWLINK = syscall.RTM_NEWLINK
const RTM_NEWNDUSEROPT = syscall.RTM_NEWNDUSEROPT
const RTM_NEWNEIGH = syscall.RTM_NEWNEIGH
const RTM_NEWNEIGHTBL = syscall.RTM_NEWNEIGHTBL
const RTM_NEWPREFIX = syscall.RTM_NEWPREFIX
const RTM_NEWQDISC = syscall.RTM_NEWQDISC
const RTM_NEWROUTE = syscall.RTM_NEWROUTE
const RTM_NEWRULE = syscall.RTM_NEWRULE
const RTM_NEWTCLASS = syscall.RTM_NEWTCLASS
const RTM_NEWTFILTER = syscall.RTM_NEWTFILTER
const RTM_NR_FAMILIES = syscall.RTM_NR_FAMILIES
const RTM_NR_MSGTYPES = syscall.RTM_NR_MSGTYPES
const RTM_SETDCB = syscall.RTM_SETDCB
const RTM_SETLINK = syscall.RTM_SETLINK
const RTM_SETNEIGHTBL = syscall.RTM_SETNEIGHTBL
const RTNH_ALIGNTO = syscall.RTNH_ALIGNTO
const RTNH_F_DEAD = syscall.RTNH_F_DEAD
const RTNH_F_ONLINK = syscall.RTNH_F_ONLINK
const RTNH_F_PERVASIVE = syscall.RTNH_F_PERVASIVE
const RTNLGRP_IPV4_IFADDR = syscall.RTNLGRP_IPV4_IFADDR
const RTNLGRP_IPV4_MROUTE = syscall.RTNLGRP_IPV4_MROUTE
const RTNLGRP_IPV4_ROUTE = syscall.RTNLGRP_IPV4_ROUTE
const RTNLGRP_IPV4_RULE = syscall.RTNLGRP_IPV4_RULE
const RTNLGRP_IPV6_IFADDR = syscall.RTNLGRP_IPV6_IFADDR
const RTNLGRP_IPV6_IFINFO = syscall.RTNLGRP_IPV6_IFINFO
const RTNLGRP_IPV6_MROUTE = syscall.RTNLGRP_IPV6_MROUTE
const RTNLGRP_IPV6_PREFIX = syscall.RTNLGRP_IPV6_PREFIX
const RTNLGRP_IPV6_ROUTE = syscall.RTNLGRP_IPV6_ROUTE
const RTNLGRP_IPV6_RULE = syscall.RTNLGRP_IPV6_RULE
const RTNLGRP_LINK = syscall.RTNLGRP_LINK
const RTNLGRP_ND_USEROPT = syscall.RTNLGRP_ND_USEROPT
const RTNLGRP_NEIGH = syscall.RTNLGRP_NEIGH
const RTNLGRP_NONE = syscall.RTNLGRP_NONE
const RTNLGRP_NOTIFY = syscall.RTNLGRP_NOTIFY
const RTNLGRP_TC = syscall.RTNLGRP_TC
const RTN_ANYCAST = syscall.RTN_ANYCAST
const RTN_BLACKHOLE = syscall.RTN_BLACKHOLE
const RTN_BROADCAST = syscall.RTN_BROADCAST
const RTN_LOCAL = syscall.RTN_LOCAL
const RTN_MAX = syscall.RTN_MAX
const RTN_MULTICAST = syscall.RTN_MULTICAST
const RTN_NAT = syscall.RTN_NAT
const RTN_PROHIBIT = syscall.RTN_PROHIBIT
const RTN_THROW = syscall.RTN_THROW
const RTN_UNICAST = syscall.RTN_UNICAST
const RTN_UNREACHABLE = syscall.RTN_UNREACHABLE
const RTN_UNSPEC = syscall.RTN_UNSPEC
const RTN_XRESOLVE = syscall.RTN_XRESOLVE
const RTPROT_BIRD = syscall.RTPROT_BIRD
const RTPROT_BOOT = syscall.RTPROT_BOOT
const RTPROT_DHCP = syscall.RTPROT_DHCP
const RTPROT_DNROUTED = syscall.RTPROT_DNROUTED
const RTPROT_GATED = syscall.RTPROT_GATED
const RTPROT_KERNEL = syscall.RTPROT_KERNEL
const RTPROT_MRT = syscall.RTPROT_MRT
const RTPROT_NTK = syscall.RTPROT_NTK
const RTPROT_RA = syscall.RTPROT_RA
const RTPROT_REDIRECT = syscall.RTPROT_REDIRECT
const RTPROT_STATIC = syscall.RTPROT_STATIC
const RTPROT_UNSPEC = syscall.RTPROT_UNSPEC
const RTPROT_XORP = syscall.RTPROT_XORP
const RTPROT_ZEBRA = syscall.RTPROT_ZEBRA
const RT_CLASS_DEFAULT = syscall.RT_CLASS_DEFAULT
const RT_CLASS_LOCAL = syscall.RT_CLASS_LOCAL
const RT_CLASS_MAIN = syscall.RT_CLASS_MAIN
const RT_CLASS_MAX = syscall.RT_CLASS_MAX
const RT_CLASS_UNSPEC = syscall.RT_CLASS_UNSPEC
const RT_SCOPE_HOST = syscall.RT_SCOPE_HOST
const RT_SCOPE_LINK = syscall.RT_SCOPE_LINK
const RT_SCOPE_NOWHERE = syscall.RT_SCOPE_NOWHERE
const RT_SCOPE_SITE = syscall.RT_SCOPE_SITE
const RT_SCOPE_UNIVERSE = syscall.RT_SCOPE_UNIVERSE
const RT_TABLE_COMPAT = syscall.RT_TABLE_COMPAT
const RT_TABLE_DEFAULT = syscall.RT_TABLE_DEFAULT
const RT_TABLE_LOCAL = syscall.RT_TABLE_LOCAL
const RT_TABLE_MAIN = syscall.RT_TABLE_MAIN
const RT_TABLE_MAX = syscall.RT_TABLE_MAX
const RT_TABLE_UNSPEC = syscall.RT_TABLE_UNSPEC
const RUSAGE_CHILDREN = syscall.RUSAGE_CHILDREN
const RUSAGE_SELF = syscall.RUSAGE_SELF
const RUSAGE_THREAD = syscall.RUSAGE_THREAD
type RawConn = syscall.RawConn
type RawSockaddr = syscall.RawSockaddr
type RawSockaddrAny = syscall.RawSockaddrAny
type RawSockaddrInet4 = syscall.RawSockaddrInet4
type RawSockaddrInet6 = syscall.RawSockaddrInet6
type RawSockaddrLinklayer = syscall.RawSockaddrLinklayer
type RawSockaddrNetlink = syscall.RawSockaddrNetlink
type RawSockaddrUnix = syscall.RawSockaddrUnix
var RawSyscall = syscall.RawSyscall
var RawSyscall6 = syscall.RawSyscall6
var Read = syscall.Read
var ReadDirent = syscall.ReadDirent
var Readlink = syscall.Readlink
var Reboot = syscall.Reboot
var Recvfrom = syscall.Recvfrom
var Recvmsg = syscall.Recvmsg
var Removexattr = syscall.Removexattr
var Rename = syscall.Rename
var Renameat = syscall.Renameat
type Rlimit = syscall.Rlimit
var Rmdir = syscall.Rmdir
type RtAttr = syscall.RtAttr
type RtGenmsg = syscall.RtGenmsg
type RtMsg = syscall.RtMsg
type RtNexthop = syscall.RtNexthop
type Rusage = syscall.Rusage
const SCM_CREDENTIALS = syscall.SCM_CREDENTIALS
const SCM_RIGHTS = syscall.SCM_RIGHTS
const SCM_TIMESTAMP = syscall.SCM_TIMESTAMP
const SCM_TIMESTAMPING = syscall.SCM_TIMESTAMPING
const SCM_TIMESTAMPNS = syscall.SCM_TIMESTAMPNS
const SHUT_RD = syscall.SHUT_RD
const SHUT_RDWR = syscall.SHUT_RDWR
const SHUT_WR = syscall.SHUT_WR
const SIGABRT = syscall.SIGABRT
const SIGALRM = syscall.SIGALRM
const SIGBUS = syscall.SIGBUS
const SIGCHLD = syscall.SIGCHLD
const SIGCLD = syscall.SIGCLD
const SIGCONT = syscall.SIGCONT
const SIGFPE = syscall.SIGFPE
const SIGHUP = syscall.SIGHUP
const SIGILL = syscall.SIGILL
const SIGINT = syscall.SIGINT
const SIGIO = syscall.SIGIO
const SIGIOT = syscall.SIGIOT
const SIGKILL = syscall.SIGKILL
const SIGPIPE = syscall.SIGPIPE
const SIGPOLL = syscall.SIGPOLL
const SIGPROF = syscall.SIGPROF
const SIGPWR = syscall.SIGPWR
const SIGQUIT = syscall.SIGQUIT
const SIGSEGV = syscall.SIGSEGV
const SIGSTKFLT = syscall.SIGSTKFLT
const SIGSTOP = syscall.SIGSTOP
const SIGSYS = syscall.SIGSYS
const SIGTERM = syscall.SIGTERM
const SIGTRAP = syscall.SIGTRAP
const SIGTSTP = syscall.SIGTSTP
const SIGTTIN = syscall.SIGTTIN
const SIGTTOU = syscall.SIGTTOU
const SIGUNUSED = syscall.SIGUNUSED
const SIGURG = syscall.SIGURG
const SIGUSR1 = syscall.SIGUSR1
const SIGUSR2 = syscall.SIGUSR2
const SIGVTALRM = syscall.SIGVTALRM
const SIGWINCH = syscall.SIGWINCH
const SIGXCPU = syscall.SIGXCPU
const SIGXFSZ = syscall.SIGXFSZ
const SIOCADDDLCI = syscall.SIOCADDDLCI
const SIOCADDMULTI = syscall.SIOCADDMULTI
const SIOCADDRT = syscall.SIOCADDRT
const SIOCATMARK = syscall.SIOCATMARK
const SIOCDARP = syscall.SIOCDARP
const SIOCDELDLCI = syscall.SIOCDELDLCI
const SIOCDELMULTI = syscall.SIOCDELMULTI
const SIOCDELRT = syscall.SIOCDELRT
const SIOCDEVPRIVATE = syscall.SIOCDEVPRIVATE
const SIOCDIFADDR = syscall.SIOCDIFADDR
const SIOCDRARP = syscall.SIOCDRARP
const SIOCGARP = syscall.SIOCGARP
const SIOCGIFADDR = syscall.SIOCGIFADDR
const SIOCGIFBR = syscall.SIOCGIFBR
const SIOCGIFBRDADDR = syscall.SIOCGIFBRDADDR
const SIOCGIFCONF = syscall.SIOCGIFCONF
const SIOCGIFCOUNT = syscall.SIOCGIFCOUNT
const SIOCGIFDSTADDR = syscall.SIOCGIFDSTADDR
const SIOCGIFENCAP = syscall.SIOCGIFENCAP
const SIOCGIFFLAGS = syscall.SIOCGIFFLAGS
const SIOCGIFHWADDR = syscall.SIOCGIFHWADDR
const SIOCGIFINDEX = syscall.SIOCGIFINDEX
const SIOCGIFMAP = syscall.SIOCGIFMAP
const SIOCGIFMEM = syscall.SIOCGIFMEM
const SIOCGIFMETRIC = syscall.SIOCGIFMETRIC
const SIOCGIFMTU = syscall.SIOCGIFMTU
const SIOCGIFNAME = syscall.SIOCGIFNAME
const SIOCGIFNETMASK = syscall.SIOCGIFNETMASK
const SIOCGIFPFLAGS = syscall.SIOCGIFPFLAGS
const SIOCGIFSLAVE = syscall.SIOCGIFSLAVE
const SIOCGIFTXQLEN = syscall.SIOCGIFTXQLEN
const SIOCGPGRP = syscall.SIOCGPGRP
const SIOCGRARP = syscall.SIOCGRARP
const SIOCGSTAMP = syscall.SIOCGSTAMP
const SIOCGSTAMPNS = syscall.SIOCGSTAMPNS
const SIOCPROTOPRIVATE = syscall.SIOCPROTOPRIVATE
const SIOCRTMSG = syscall.SIOCRTMSG
const SIOCSARP = syscall.SIOCSARP
const SIOCSIFADDR = syscall.SIOCSIFADDR
const SIOCSIFBR = syscall.SIOCSIFBR
const SIOCSIFBRDADDR = syscall.SIOCSIFBRDADDR
const SIOCSIFDSTADDR = syscall.SIOCSIFDSTADDR
const SIOCSIFENCAP = syscall.SIOCSIFENCAP
const SIOCSIFFLAGS = syscall.SIOCSIFFLAGS
const SIOCSIFHWADDR = syscall.SIOCSIFHWADDR
const SIOCSIFHWBROADCAST = syscall.SIOCSIFHWBROADCAST
const SIOCSIFLINK = syscall.SIOCSIFLINK
const SIOCSIFMAP = syscall.SIOCSIFMAP
const SIOCSIFMEM = syscall.SIOCSIFMEM
const SIOCSIFMETRIC = syscall.SIOCSIFMETRIC
const SIOCSIFMTU = syscall.SIOCSIFMTU
const SIOCSIFNAME = syscall.SIOCSIFNAME
const SIOCSIFNETMASK = syscall.SIOCSIFNETMASK
const SIOCSIFPFLAGS = syscall.SIOCSIFPFLAGS
const SIOCSIFSLAVE = syscall.SIOCSIFSLAVE
const SIOCSIFTXQLEN = syscall.SIOCSIFTXQLEN
const SIOCSPGRP = syscall.SIOCSPGRP
const SIOCSRARP = syscall.SIOCSRARP
const SOCK_CLOEXEC = syscall.SOCK_CLOEXEC
const SOCK_DCCP = syscall.SOCK_DCCP
const SOCK_DGRAM = syscall.SOCK_DGRAM
const SOCK_NONBLOCK = syscall.SOCK_NONBLOCK
const SOCK_PACKET = syscall.SOCK_PACKET
const SOCK_RAW = syscall.SOCK_RAW
const SOCK_RDM = syscall.SOCK_RDM
const SOCK_SEQPACKET = syscall.SOCK_SEQPACKET
const SOCK_STREAM = syscall.SOCK_STREAM
const SOL_AAL = syscall.SOL_AAL
const SOL_ATM = syscall.SOL_ATM
const SOL_DECNET = syscall.SOL_DECNET
const SOL_ICMPV6 = syscall.SOL_ICMPV6
const SOL_IP = syscall.SOL_IP
const SOL_IPV6 = syscall.SOL_IPV6
const SOL_IRDA = syscall.SOL_IRDA
const SOL_PACKET = syscall.SOL_PACKET
const SOL_RAW = syscall.SOL_RAW
const SOL_SOCKET = syscall.SOL_SOCKET
const SOL_TCP = syscall.SOL_TCP
const SOL_X25 = syscall.SOL_X25
const SOMAXCONN = syscall.SOMAXCONN
const SO_ACCEPTCONN = syscall.SO_ACCEPTCONN
const SO_ATTACH_FILTER = syscall.SO_ATTACH_FILTER
const SO_BINDTODEVICE = syscall.SO_BINDTODEVICE
const SO_BROADCAST = syscall.SO_BROADCAST
const SO_BSDCOMPAT = syscall.SO_BSDCOMPAT
const SO_DEBUG = syscall.SO_DEBUG
const SO_DETACH_FILTER = syscall.SO_DETACH_FILTER
const SO_DOMAIN = syscall.SO_DOMAIN
const SO_DONTROUTE = syscall.SO_DONTROUTE
const SO_ERROR = syscall.SO_ERROR
const SO_KEEPALIVE = syscall.SO_KEEPALIVE
const SO_LINGER = syscall.SO_LINGER
const SO_MARK = syscall.SO_MARK
const SO_NO_CHECK = syscall.SO_NO_CHECK
const SO_OOBINLINE = syscall.SO_OOBINLINE
const SO_PASSCRED = syscall.SO_PASSCRED
const SO_PASSSEC = syscall.SO_PASSSEC
const SO_PEERCRED = syscall.SO_PEERCRED
const SO_PEERNAME = syscall.SO_PEERNAME
const SO_PEERSEC = syscall.SO_PEERSEC
const SO_PRIORITY = syscall.SO_PRIORITY
const SO_PROTOCOL = syscall.SO_PROTOCOL
const SO_RCVBUF = syscall.SO_RCVBUF
const SO_RCVBUFFORCE = syscall.SO_RCVBUFFORCE
const SO_RCVLOWAT = syscall.SO_RCVLOWAT
const SO_RCVTIMEO = syscall.SO_RCVTIMEO
const SO_REUSEADDR = syscall.SO_REUSEADDR
const SO_RXQ_OVFL = syscall.SO_RXQ_OVFL
const SO_SECURITY_AUTHENTICATION = syscall.SO_SECURITY_AUTHENTICATION
const SO_SECURITY_ENCRYPTION_NETWORK = syscall.SO_SECURITY_ENCRYPTION_NETWORK
const SO_SECURITY_ENCRYPTION_TRANSPORT = syscall.SO_SECURITY_ENCRYPTION_TRANSPORT
const SO_SNDBUF = syscall.SO_SNDBUF
const SO_SNDBUFFORCE = syscall.SO_SNDBUFFORCE
const SO_SNDLOWAT = syscall.SO_SNDLOWAT
const SO_SNDTIMEO = syscall.SO_SNDTIMEO
const SO_TIMESTAMP = syscall.SO_TIMESTAMP
const SO_TIMESTAMPING = syscall.SO_TIMESTAMPING
const SO_TIMESTAMPNS = syscall.SO_TIMESTAMPNS
const SO_TYPE = syscall.SO_TYPE
const SYS_ACCEPT = syscall.SYS_ACCEPT
const SYS_ACCEPT4 = syscall.SYS_ACCEPT4
const SYS_ACCESS = syscall.SYS_ACCESS
const SYS_ACCT = syscall.SYS_ACCT
const SYS_ADD_KEY = syscall.SYS_ADD_KEY
const SYS_ADJTIMEX = syscall.SYS_ADJTIMEX
const SYS_AFS_SYSCALL = syscall.SYS_AFS_SYSCALL
const SYS_ALARM = syscall.SYS_ALARM
const SYS_ARCH_PRCTL = syscall.SYS_ARCH_PRCTL
const SYS_BIND = syscall.SYS_BIND
const SYS_BRK = syscall.SYS_BRK
const SYS_CAPGET = syscall.SYS_CAPGET
const SYS_CAPSET = syscall.SYS_CAPSET
const SYS_CHDIR = syscall.SYS_CHDIR
const SYS_CHMOD = syscall.SYS_CHMOD
const SYS_CHOWN = syscall.SYS_CHOWN
const SYS_CHROOT = syscall.SYS_CHROOT
const SYS_CLOCK_GETRES = syscall.SYS_CLOCK_GETRES
const SYS_CLOCK_GETTIME = syscall.SYS_CLOCK_GETTIME
const SYS_CLOCK_NANOSLEEP = syscall.SYS_CLOCK_NANOSLEEP
const SYS_CLOCK_SETTIME = syscall.SYS_CLOCK_SETTIME
const SYS_CLONE = syscall.SYS_CLONE
const SYS_CLOSE = syscall.SYS_CLOSE
const SYS_CONNECT = syscall.SYS_CONNECT
const SYS_CREAT = syscall.SYS_CREAT
const SYS_CREATE_MODULE = syscall.SYS_CREATE_MODULE
const SYS_DELETE_MODULE = syscall.SYS_DELETE_MODULE
const SYS_DUP = syscall.SYS_DUP
const SYS_DUP2 = syscall.SYS_DUP2
const SYS_DUP3 = syscall.SYS_DUP3
const SYS_EPOLL_CREATE = syscall.SYS_EPOLL_CREATE
const SYS_EPOLL_CREATE1 = syscall.SYS_EPOLL_CREATE1
const SYS_EPOLL_CTL = syscall.SYS_EPOLL_CTL
const SYS_EPOLL_CTL_OLD = syscall.SYS_EPOLL_CTL_OLD
const SYS_EPOLL_PWAIT = syscall.SYS_EPOLL_PWAIT
const SYS_EPOLL_WAIT = syscall.SYS_EPOLL_WAIT
const SYS_EPOLL_WAIT_OLD = syscall.SYS_EPOLL_WAIT_OLD
const SYS_EVENTFD = syscall.SYS_EVENTFD
const SYS_EVENTFD2 = syscall.SYS_EVENTFD2
const SYS_EXECVE = syscall.SYS_EXECVE
const SYS_EXIT = syscall.SYS_EXIT
const SYS_EXIT_GROUP = syscall.SYS_EXIT_GROUP
const SYS_FACCESSAT = syscall.SYS_FACCESSAT
const SYS_FADVISE64 = syscall.SYS_FADVISE64
const SYS_FALLOCATE = syscall.SYS_FALLOCATE
const SYS_FANOTIFY_INIT = syscall.SYS_FANOTIFY_INIT
const SYS_FANOTIFY_MARK = syscall.SYS_FANOTIFY_MARK
const SYS_FCHDIR = syscall.SYS_FCHDIR
const SYS_FCHMOD = syscall.SYS_FCHMOD
const SYS_FCHMODAT = syscall.SYS_FCHMODAT
const SYS_FCHOWN = syscall.SYS_FCHOWN
const SYS_FCHOWNAT = syscall.SYS_FCHOWNAT
const SYS_FCNTL = syscall.SYS_FCNTL
const SYS_FDATASYNC = syscall.SYS_FDATASYNC
const SYS_FGETXATTR = syscall.SYS_FGETXATTR
const SYS_FLISTXATTR = syscall.SYS_FLISTXATTR
const SYS_FLOCK = syscall.SYS_FLOCK
const SYS_FORK = syscall.SYS_FORK
const SYS_FREMOVEXATTR = syscall.SYS_FREMOVEXATTR
const SYS_FSETXATTR = syscall.SYS_FSETXATTR
const SYS_FSTAT = syscall.SYS_FSTAT
const SYS_FSTATFS = syscall.SYS_FSTATFS
const SYS_FSYNC = syscall.SYS_FSYNC
const SYS_FTRUNCATE = syscall.SYS_FTRUNCATE
const SYS_FUTEX = syscall.SYS_FUTEX
const SYS_FUTIMESAT = syscall.SYS_FUTIMESAT
const SYS_GETCWD = syscall.SYS_GETCWD
const SYS_GETDENTS = syscall.SYS_GETDENTS
const SYS_GETDENTS64 = syscall.SYS_GETDENTS64
const SYS_GETEGID = syscall.SYS_GETEGID
const SYS_GETEUID = syscall.SYS_GETEUID
const SYS_GETGID = syscall.SYS_GETGID
const SYS_GETGROUPS = syscall.SYS_GETGROUPS
const SYS_GETITIMER = syscall.SYS_GETITIMER
const SYS_GETPEERNAME = syscall.SYS_GETPEERNAME
const SYS_GETPGID = syscall.SYS_GETPGID
const SYS_GETPGRP = syscall.SYS_GETPGRP
const SYS_GETPID = syscall.SYS_GETPID
const SYS_GETPMSG = syscall.SYS_GETPMSG
const SYS_GETPPID = syscall.SYS_GETPPID
const SYS_GETPRIORITY = syscall.SYS_GETPRIORITY
const SYS_GETRESGID = syscall.SYS_GETRESGID
const SYS_GETRESUID = syscall.SYS_GETRESUID
const SYS_GETRLIMIT = syscall.SYS_GETRLIMIT
const SYS_GETRUSAGE = syscall.SYS_GETRUSAGE
const SYS_GETSID = syscall.SYS_GETSID
const SYS_GETSOCKNAME = syscall.SYS_GETSOCKNAME
const SYS_GETSOCKOPT = syscall.SYS_GETSOCKOPT
const SYS_GETTID = syscall.SYS_GETTID
const SYS_GETTIMEOFDAY = syscall.SYS_GETTIMEOFDAY
const SYS_GETUID = syscall.SYS_GETUID
const SYS_GETXATTR = syscall.SYS_GETXATTR
const SYS_GET_KERNEL_SYMS = syscall.SYS_GET_KERNEL_SYMS
const SYS_GET_MEMPOLICY = syscall.SYS_GET_MEMPOLICY
const SYS_GET_ROBUST_LIST = syscall.SYS_GET_ROBUST_LIST
const SYS_GET_THREAD_AREA = syscall.SYS_GET_THREAD_AREA
const SYS_INIT_MODULE = syscall.SYS_INIT_MODULE
const SYS_INOTIFY_ADD_WATCH = syscall.SYS_INOTIFY_ADD_WATCH
const SYS_INOTIFY_INIT = syscall.SYS_INOTIFY_INIT
const SYS_INOTIFY_INIT1 = syscall.SYS_INOTIFY_INIT1
const SYS_INOTIFY_RM_WATCH = syscall.SYS_INOTIFY_RM_WATCH
const SYS_IOCTL = syscall.SYS_IOCTL
const SYS_IOPERM = syscall.SYS_IOPERM
const SYS_IOPL = syscall.SYS_IOPL
const SYS_IOPRIO_GET = syscall.SYS_IOPRIO_GET
const SYS_IOPRIO_SET = syscall.SYS_IOPRIO_SET
const SYS_IO_CANCEL = syscall.SYS_IO_CANCEL
const SYS_IO_DESTROY = syscall.SYS_IO_DESTROY
const SYS_IO_GETEVENTS = syscall.SYS_IO_GETEVENTS
const SYS_IO_SETUP = syscall.SYS_IO_SETUP
const SYS_IO_SUBMIT = syscall.SYS_IO_SUBMIT
const SYS_KEXEC_LOAD = syscall.SYS_KEXEC_LOAD
const SYS_KEYCTL = syscall.SYS_KEYCTL
const SYS_KILL = syscall.SYS_KILL
const SYS_LCHOWN = syscall.SYS_LCHOWN
const SYS_LGETXATTR = syscall.SYS_LGETXATTR
const SYS_LINK = syscall.SYS_LINK
const SYS_LINKAT = syscall.SYS_LINKAT
const SYS_LISTEN = syscall.SYS_LISTEN
const SYS_LISTXATTR = syscall.SYS_LISTXATTR
const SYS_LLISTXATTR = syscall.SYS_LLISTXATTR
const SYS_LOOKUP_DCOOKIE = syscall.SYS_LOOKUP_DCOOKIE
const SYS_LREMOVEXATTR = syscall.SYS_LREMOVEXATTR
const SYS_LSEEK = syscall.SYS_LSEEK
const SYS_LSETXATTR = syscall.SYS_LSETXATTR
const SYS_LSTAT = syscall.SYS_LSTAT
const SYS_MADVISE = syscall.SYS_MADVISE
const SYS_MBIND = syscall.SYS_MBIND
const SYS_MIGRATE_PAGES = syscall.SYS_MIGRATE_PAGES
const SYS_MINCORE = syscall.SYS_MINCORE
const SYS_MKDIR = syscall.SYS_MKDIR
const SYS_MKDIRAT = syscall.SYS_MKDIRAT
const SYS_MKNOD = syscall.SYS_MKNOD
const SYS_MKNODAT = syscall.SYS_MKNODAT
const SYS_MLOCK = syscall.SYS_MLOCK
const SYS_MLOCKALL = syscall.SYS_MLOCKALL
const SYS_MMAP = syscall.SYS_MMAP
const SYS_MODIFY_LDT = syscall.SYS_MODIFY_LDT
const SYS_MOUNT = syscall.SYS_MOUNT
const SYS_MOVE_PAGES = syscall.SYS_MOVE_PAGES
const SYS_MPROTECT = syscall.SYS_MPROTECT
const SYS_MQ_GETSETATTR = syscall.SYS_MQ_GETSETATTR
const SYS_MQ_NOTIFY = syscall.SYS_MQ_NOTIFY
const SYS_MQ_OPEN = syscall.SYS_MQ_OPEN
const SYS_MQ_TIMEDRECEIVE = syscall.SYS_MQ_TIMEDRECEIVE
const SYS_MQ_TIMEDSEND = syscall.SYS_MQ_TIMEDSEND
const SYS_MQ_UNLINK = syscall.SYS_MQ_UNLINK
const SYS_MREMAP = syscall.SYS_MREMAP
const SYS_MSGCTL = syscall.SYS_MSGCTL
const SYS_MSGGET = syscall.SYS_MSGGET
const SYS_MSGRCV = syscall.SYS_MSGRCV
const SYS_MSGSND = syscall.SYS_MSGSND
const SYS_MSYNC = syscall.SYS_MSYNC
const SYS_MUNLOCK = syscall.SYS_MUNLOCK
const SYS_MUNLOCKALL = syscall.SYS_MUNLOCKALL
const SYS_MUNMAP = syscall.SYS_MUNMAP
const SYS_NANOSLEEP = syscall.SYS_NANOSLEEP
const SYS_NEWFSTATAT = syscall.SYS_NEWFSTATAT
const SYS_NFSSERVCTL = syscall.SYS_NFSSERVCTL
const SYS_OPEN = syscall.SYS_OPEN
const SYS_OPENAT = syscall.SYS_OPENAT
const SYS_PAUSE = syscall.SYS_PAUSE
const SYS_PERF_EVENT_OPEN = syscall.SYS_PERF_EVENT_OPEN
const SYS_PERSONALITY = syscall.SYS_PERSONALITY
const SYS_PIPE = syscall.SYS_PIPE
const SYS_PIPE2 = syscall.SYS_PIPE2
const SYS_PIVOT_ROOT = syscall.SYS_PIVOT_ROOT
const SYS_POLL = syscall.SYS_POLL
const SYS_PPOLL = syscall.SYS_PPOLL
const SYS_PRCTL = syscall.SYS_PRCTL
const SYS_PREAD64 = syscall.SYS_PREAD64
const SYS_PREADV = syscall.SYS_PREADV
const SYS_PRLIMIT64 = syscall.SYS_PRLIMIT64
const SYS_PSELECT6 = syscall.SYS_PSELECT6
const SYS_PTRACE = syscall.SYS_PTRACE
const SYS_PUTPMSG = syscall.SYS_PUTPMSG
const SYS_PWRITE64 = syscall.SYS_PWRITE64
const SYS_PWRITEV = syscall.SYS_PWRITEV
const SYS_QUERY_MODULE = syscall.SYS_QUERY_MODULE
const SYS_QUOTACTL = syscall.SYS_QUOTACTL
const SYS_READ = syscall.SYS_READ
const SYS_READAHEAD = syscall.SYS_READAHEAD
const SYS_READLINK = syscall.SYS_READLINK
const SYS_READLINKAT = syscall.SYS_READLINKAT
const SYS_READV = syscall.SYS_READV
const SYS_REBOOT = syscall.SYS_REBOOT
const SYS_RECVFROM = syscall.SYS_RECVFROM
const SYS_RECVMMSG = syscall.SYS_RECVMMSG
const SYS_RECVMSG = syscall.SYS_RECVMSG
const SYS_REMAP_FILE_PAGES = syscall.SYS_REMAP_FILE_PAGES
const SYS_REMOVEXATTR = syscall.SYS_REMOVEXATTR
const SYS_RENAME = syscall.SYS_RENAME
const SYS_RENAMEAT = syscall.SYS_RENAMEAT
const SYS_REQUEST_KEY = syscall.SYS_REQUEST_KEY
const SYS_RESTART_SYSCALL = syscall.SYS_RESTART_SYSCALL
const SYS_RMDIR = syscall.SYS_RMDIR
const SYS_RT_SIGACTION = syscall.SYS_RT_SIGACTION
const SYS_RT_SIGPENDING = syscall.SYS_RT_SIGPENDING
const SYS_RT_SIGPROCMASK = syscall.SYS_RT_SIGPROCMASK
const SYS_RT_SIGQUEUEINFO = syscall.SYS_RT_SIGQUEUEINFO
const SYS_RT_SIGRETURN = syscall.SYS_RT_SIGRETURN
const SYS_RT_SIGSUSPEND = syscall.SYS_RT_SIGSUSPEND
const SYS_RT_SIGTIMEDWAIT = syscall.SYS_RT_SIGTIMEDWAIT
const SYS_RT_TGSIGQUEUEINFO = syscall.SYS_RT_TGSIGQUEUEINFO
const SYS_SCHED_GETAFFINITY = syscall.SYS_SCHED_GETAFFINITY
const SYS_SCHED_GETPARAM = syscall.SYS_SCHED_GETPARAM
const SYS_SCHED_GETSCHEDULER = syscall.SYS_SCHED_GETSCHEDULER
const SYS_SCHED_GET_PRIORITY_MAX = syscall.SYS_SCHED_GET_PRIORITY_MAX
const SYS_SCHED_GET_PRIORITY_MIN = syscall.SYS_SCHED_GET_PRIORITY_MIN
const SYS_SCHED_RR_GET_INTERVAL = syscall.SYS_SCHED_RR_GET_INTERVAL
const SYS_SCHED_SETAFFINITY = syscall.SYS_SCHED_SETAFFINITY
const SYS_SCHED_SETPARAM = syscall.SYS_SCHED_SETPARAM
const SYS_SCHED_SETSCHEDULER = syscall.SYS_SCHED_SETSCHEDULER
const SYS_SCHED_YIELD = syscall.SYS_SCHED_YIELD
const SYS_SECURITY = syscall.SYS_SECURITY
const SYS_SELECT = syscall.SYS_SELECT
const SYS_SEMCTL = syscall.SYS_SEMCTL
const SYS_SEMGET = syscall.SYS_SEMGET
const SYS_SEMOP = syscall.SYS_SEMOP
const SYS_SEMTIMEDOP = syscall.SYS_SEMTIMEDOP
const SYS_SENDFILE = syscall.SYS_SENDFILE
const SYS_SENDMSG = syscall.SYS_SENDMSG
const SYS_SENDTO = syscall.SYS_SENDTO
const SYS_SETDOMAINNAME = syscall.SYS_SETDOMAINNAME
const SYS_SETFSGID = syscall.SYS_SETFSGID
const SYS_SETFSUID = syscall.SYS_SETFSUID
const SYS_SETGID = syscall.SYS_SETGID
const SYS_SETGROUPS = syscall.SYS_SETGROUPS
const SYS_SETHOSTNAME = syscall.SYS_SETHOSTNAME
const SYS_SETITIMER = syscall.SYS_SETITIMER
const SYS_SETPGID = syscall.SYS_SETPGID
const SYS_SETPRIORITY = syscall.SYS_SETPRIORITY
const SYS_SETREGID = syscall.SYS_SETREGID
const SYS_SETRESGID = syscall.SYS_SETRESGID
const SYS_SETRESUID = syscall.SYS_SETRESUID
const SYS_SETREUID = syscall.SYS_SETREUID
const SYS_SETRLIMIT = syscall.SYS_SETRLIMIT
const SYS_SETSID = syscall.SYS_SETSID
const SYS_SETSOCKOPT = syscall.SYS_SETSOCKOPT
const SYS_SETTIMEOFDAY = syscall.SYS_SETTIMEOFDAY
const SYS_SETUID = syscall.SYS_SETUID
const SYS_SETXATTR = syscall.SYS_SETXATTR
const SYS_SET_MEMPOLICY = syscall.SYS_SET_MEMPOLICY
const SYS_SET_ROBUST_LIST = syscall.SYS_SET_ROBUST_LIST
const SYS_SET_THREAD_AREA = syscall.SYS_SET_THREAD_AREA
const SYS_SET_TID_ADDRESS = syscall.SYS_SET_TID_ADDRESS
const SYS_SHMAT = syscall.SYS_SHMAT
const SYS_SHMCTL = syscall.SYS_SHMCTL
const SYS_SHMDT = syscall.SYS_SHMDT
const SYS_SHMGET = syscall.SYS_SHMGET
const SYS_SHUTDOWN = syscall.SYS_SHUTDOWN
const SYS_SIGALTSTACK = syscall.SYS_SIGALTSTACK
const SYS_SIGNALFD = syscall.SYS_SIGNALFD
const SYS_SIGNALFD4 = syscall.SYS_SIGNALFD4
const SYS_SOCKET = syscall.SYS_SOCKET
const SYS_SOCKETPAIR = syscall.SYS_SOCKETPAIR
const SYS_SPLICE = syscall.SYS_SPLICE
const SYS_STAT = syscall.SYS_STAT
const SYS_STATFS = syscall.SYS_STATFS
const SYS_SWAPOFF = syscall.SYS_SWAPOFF
const SYS_SWAPON = syscall.SYS_SWAPON
const SYS_SYMLINK = syscall.SYS_SYMLINK
const SYS_SYMLINKAT = syscall.SYS_SYMLINKAT
const SYS_SYNC = syscall.SYS_SYNC
const SYS_SYNC_FILE_RANGE = syscall.SYS_SYNC_FILE_RANGE
const SYS_SYSFS = syscall.SYS_SYSFS
const SYS_SYSINFO = syscall.SYS_SYSINFO
const SYS_SYSLOG = syscall.SYS_SYSLOG
const SYS_TEE = syscall.SYS_TEE
const SYS_TGKILL = syscall.SYS_TGKILL
const SYS_TIME = syscall.SYS_TIME
const SYS_TIMERFD_CREATE = syscall.SYS_TIMERFD_CREATE
const SYS_TIMERFD_GETTIME = syscall.SYS_TIMERFD_GETTIME
const SYS_TIMERFD_SETTIME = syscall.SYS_TIMERFD_SETTIME
const SYS_TIMER_CREATE = syscall.SYS_TIMER_CREATE
const SYS_TIMER_DELETE = syscall.SYS_TIMER_DELETE
const SYS_TIMER_GETOVERRUN = syscall.SYS_TIMER_GETOVERRUN
const SYS_TIMER_GETTIME = syscall.SYS_TIMER_GETTIME
const SYS_TIMER_SETTIME = syscall.SYS_TIMER_SETTIME
const SYS_TIMES = syscall.SYS_TIMES
const SYS_TKILL = syscall.SYS_TKILL
const SYS_TRUNCATE = syscall.SYS_TRUNCATE
const SYS_TUXCALL = syscall.SYS_TUXCALL
const SYS_UMASK = syscall.SYS_UMASK
const SYS_UMOUNT2 = syscall.SYS_UMOUNT2
const SYS_UNAME = syscall.SYS_UNAME
const SYS_UNLINK = syscall.SYS_UNLINK
const SYS_UNLINKAT = syscall.SYS_UNLINKAT
const SYS_UNSHARE = syscall.SYS_UNSHARE
const SYS_USELIB = syscall.SYS_USELIB
const SYS_USTAT = syscall.SYS_USTAT
const SYS_UTIME = syscall.SYS_UTIME
const SYS_UTIMENSAT = syscall.SYS_UTIMENSAT
const SYS_UTIMES = syscall.SYS_UTIMES
const SYS_VFORK = syscall.SYS_VFORK
const SYS_VHANGUP = syscall.SYS_VHANGUP
const SYS_VMSPLICE = syscall.SYS_VMSPLICE
const SYS_VSERVER = syscall.SYS_VSERVER
const SYS_WAIT4 = syscall.SYS_WAIT4
const SYS_WAITID = syscall.SYS_WAITID
const SYS_WRITE = syscall.SYS_WRITE
const SYS_WRITEV = syscall.SYS_WRITEV
const SYS__SYSCTL = syscall.SYS__SYSCTL
const S_BLKSIZE = syscall.S_BLKSIZE
const S_IEXEC = syscall.S_IEXEC
const S_IFBLK = syscall.S_IFBLK
const S_IFCHR = syscall.S_IFCHR
const S_IFDIR = syscall.S_IFDIR
const S_IFIFO = syscall.S_IFIFO
const S_IFLNK = syscall.S_IFLNK
const S_IFMT = syscall.S_IFMT
const S_IFREG = syscall.S_IFREG
const S_IFSOCK = syscall.S_IFSOCK
const S_IREAD = syscall.S_IREAD
const S_IRGRP = syscall.S_IRGRP
const S_IROTH = syscall.S_IROTH
const S_IRUSR = syscall.S_IRUSR
const S_IRWXG = syscall.S_IRWXG
const S_IRWXO = syscall.S_IRWXO
const S_IRWXU = syscall.S_IRWXU
const S_ISGID = syscall.S_ISGID
const S_ISUID = syscall.S_ISUID
const S_ISVTX = syscall.S_ISVTX
const S_IWGRP = syscall.S_IWGRP
const S_IWOTH = syscall.S_IWOTH
const S_IWRITE = syscall.S_IWRITE
const S_IWUSR = syscall.S_IWUSR
const S_IXGRP = syscall.S_IXGRP
const S_IXOTH = syscall.S_IXOTH
const S_IXUSR = syscall.S_IXUSR
var Seek = syscall.Seek
var Select = syscall.Select
var Sendfile = syscall.Sendfile
var Sendmsg = syscall.Sendmsg
var SendmsgN = syscall.SendmsgN
var Sendto = syscall.Sendto
var SetLsfPromisc = syscall.SetLsfPromisc
var SetNonblock = syscall.SetNonblock
var Setdomainname = syscall.Setdomainname
var Setegid = syscall.Setegid
var Setenv = syscall.Setenv
var Seteuid = syscall.Seteuid
var Setfsgid = syscall.Setfsgid
var Setfsuid = syscall.Setfsuid
var Setgid = syscall.Setgid
var Setgroups = syscall.Setgroups
var Sethostname = syscall.Sethostname
var Setpgid = syscall.Setpgid
var Setpriority = syscall.Setpriority
var Setregid = syscall.Setregid
var Setresgid = syscall.Setresgid
var Setresuid = syscall.Setresuid
var Setreuid = syscall.Setreuid
var Setrlimit = syscall.Setrlimit
var Setsid = syscall.Setsid
var SetsockoptByte = syscall.SetsockoptByte
var SetsockoptICMPv6Filter = syscall.SetsockoptICMPv6Filter
var SetsockoptIPMreq = syscall.SetsockoptIPMreq
var SetsockoptIPMreqn = syscall.SetsockoptIPMreqn
var SetsockoptIPv6Mreq = syscall.SetsockoptIPv6Mreq
var SetsockoptInet4Addr = syscall.SetsockoptInet4Addr
var SetsockoptInt = syscall.SetsockoptInt
var SetsockoptLinger = syscall.SetsockoptLinger
var SetsockoptString = syscall.SetsockoptString
var SetsockoptTimeval = syscall.SetsockoptTimeval
var Settimeofday = syscall.Settimeofday
var Setuid = syscall.Setuid
var Setxattr = syscall.Setxattr
var Shutdown = syscall.Shutdown
type Signal = syscall.Signal
const SizeofCmsghdr = syscall.SizeofCmsghdr
const SizeofICMPv6Filter = syscall.SizeofICMPv6Filter
const SizeofIPMreq = syscall.SizeofIPMreq
const SizeofIPMreqn = syscall.SizeofIPMreqn
const SizeofIPv6MTUInfo = syscall.SizeofIPv6MTUInfo
const SizeofIPv6Mreq = syscall.SizeofIPv6Mreq
const SizeofIfAddrmsg = syscall.SizeofIfAddrmsg
const SizeofIfInfomsg = syscall.SizeofIfInfomsg
const SizeofInet4Pktinfo = syscall.SizeofInet4Pktinfo
const SizeofInet6Pktinfo = syscall.SizeofInet6Pktinfo
const SizeofInotifyEvent = syscall.SizeofInotifyEvent
const SizeofLinger = syscall.SizeofLinger
const SizeofMsghdr = syscall.SizeofMsghdr
const SizeofNlAttr = syscall.SizeofNlAttr
const SizeofNlMsgerr = syscall.SizeofNlMsgerr
const SizeofNlMsghdr = syscall.SizeofNlMsghdr
const SizeofRtAttr = syscall.SizeofRtAttr
const SizeofRtGenmsg = syscall.SizeofRtGenmsg
const SizeofRtMsg = syscall.SizeofRtMsg
const SizeofRtNexthop = syscall.SizeofRtNexthop
const SizeofSockFilter = syscall.SizeofSockFilter
const SizeofSockFprog = syscall.SizeofSockFprog
const SizeofSockaddrAny = syscall.SizeofSockaddrAny
const SizeofSockaddrInet4 = syscall.SizeofSockaddrInet4
const SizeofSockaddrInet6 = syscall.SizeofSockaddrInet6
const SizeofSockaddrLinklayer = syscall.SizeofSockaddrLinklayer
const SizeofSockaddrNetlink = syscall.SizeofSockaddrNetlink
const SizeofSockaddrUnix = syscall.SizeofSockaddrUnix
const SizeofTCPInfo = syscall.SizeofTCPInfo
const SizeofUcred = syscall.SizeofUcred
var SlicePtrFromStrings = syscall.SlicePtrFromStrings
type SockFilter = syscall.SockFilter
type SockFprog = syscall.SockFprog
type Sockaddr = syscall.Sockaddr
type SockaddrInet4 = syscall.SockaddrInet4
type SockaddrInet6 = syscall.SockaddrInet6
type SockaddrLinklayer = syscall.SockaddrLinklayer
type SockaddrNetlink = syscall.SockaddrNetlink
type SockaddrUnix = syscall.SockaddrUnix
var Socket = syscall.Socket
type SocketControlMessage = syscall.SocketControlMessage
var SocketDisableIPv6 = syscall.SocketDisableIPv6
var Socketpair = syscall.Socketpair
var Splice = syscall.Splice
var StartProcess = syscall.StartProcess
var Stat = syscall.Stat
type Stat_t = syscall.Stat_t
var Statfs = syscall.Statfs
type Statfs_t = syscall.Statfs_t
var Stderr = syscall.Stderr
var Stdin = syscall.Stdin
var Stdout = syscall.Stdout
var StringBytePtr = syscall.StringBytePtr
var StringByteSlice = syscall.StringByteSlice
var StringSlicePtr = syscall.StringSlicePtr
var Symlink = syscall.Symlink
var Sync = syscall.Sync
var SyncFileRange = syscall.SyncFileRange
type SysProcAttr = syscall.SysProcAttr
type SysProcIDMap = syscall.SysProcIDMap
var Syscall = syscall.Syscall
var Syscall6 = syscall.Syscall6
var Sysinfo = syscall.Sysinfo
type Sysinfo_t = syscall.Sysinfo_t
const TCGETS = syscall.TCGETS
const TCIFLUSH = syscall.TCIFLUSH
const TCIOFLUSH = syscall.TCIOFLUSH
const TCOFLUSH = syscall.TCOFLUSH
type TCPInfo = syscall.TCPInfo
const TCP_CONGESTION = syscall.TCP_CONGESTION
const TCP_CORK = syscall.TCP_CORK
const TCP_DEFER_ACCEPT = syscall.TCP_DEFER_ACCEPT
const TCP_INFO = syscall.TCP_INFO
const TCP_KEEPCNT = syscall.TCP_KEEPCNT
const TCP_KEEPIDLE = syscall.TCP_KEEPIDLE
const TCP_KEEPINTVL = syscall.TCP_KEEPINTVL
const TCP_LINGER2 = syscall.TCP_LINGER2
const TCP_MAXSEG = syscall.TCP_MAXSEG
const TCP_MAXWIN = syscall.TCP_MAXWIN
const TCP_MAX_WINSHIFT = syscall.TCP_MAX_WINSHIFT
const TCP_MD5SIG = syscall.TCP_MD5SIG
const TCP_MD5SIG_MAXKEYLEN = syscall.TCP_MD5SIG_MAXKEYLEN
const TCP_MSS = syscall.TCP_MSS
const TCP_NODELAY = syscall.TCP_NODELAY
const TCP_QUICKACK = syscall.TCP_QUICKACK
const TCP_SYNCNT = syscall.TCP_SYNCNT
const TCP_WINDOW_CLAMP = syscall.TCP_WINDOW_CLAMP
const TCSETS = syscall.TCSETS
const TIOCCBRK = syscall.TIOCCBRK
const TIOCCONS = syscall.TIOCCONS
const TIOCEXCL = syscall.TIOCEXCL
const TIOCGDEV = syscall.TIOCGDEV
const TIOCGETD = syscall.TIOCGETD
const TIOCGICOUNT = syscall.TIOCGICOUNT
const TIOCGLCKTRMIOS = syscall.TIOCGLCKTRMIOS
const TIOCGPGRP = syscall.TIOCGPGRP
const TIOCGPTN = syscall.TIOCGPTN
const TIOCGRS485 = syscall.TIOCGRS485
const TIOCGSERIAL = syscall.TIOCGSERIAL
const TIOCGSID = syscall.TIOCGSID
const TIOCGSOFTCAR = syscall.TIOCGSOFTCAR
const TIOCGWINSZ = syscall.TIOCGWINSZ
const TIOCINQ = syscall.TIOCINQ
const TIOCLINUX = syscall.TIOCLINUX
const TIOCMBIC = syscall.TIOCMBIC
const TIOCMBIS = syscall.TIOCMBIS
const TIOCMGET = syscall.TIOCMGET
const TIOCMIWAIT = syscall.TIOCMIWAIT
const TIOCMSET = syscall.TIOCMSET
const TIOCM_CAR = syscall.TIOCM_CAR
const TIOCM_CD = syscall.TIOCM_CD
const TIOCM_CTS = syscall.TIOCM_CTS
const TIOCM_DSR = syscall.TIOCM_DSR
const TIOCM_DTR = syscall.TIOCM_DTR
const TIOCM_LE = syscall.TIOCM_LE
const TIOCM_RI = syscall.TIOCM_RI
const TIOCM_RNG = syscall.TIOCM_RNG
const TIOCM_RTS = syscall.TIOCM_RTS
const TIOCM_SR = syscall.TIOCM_SR
const TIOCM_ST = syscall.TIOCM_ST
const TIOCNOTTY = syscall.TIOCNOTTY
const TIOCNXCL = syscall.TIOCNXCL
const TIOCOUTQ = syscall.TIOCOUTQ
const TIOCPKT = syscall.TIOCPKT
const TIOCPKT_DATA = syscall.TIOCPKT_DATA
const TIOCPKT_DOSTOP = syscall.TIOCPKT_DOSTOP
const TIOCPKT_FLUSHREAD = syscall.TIOCPKT_FLUSHREAD
const TIOCPKT_FLUSHWRITE = syscall.TIOCPKT_FLUSHWRITE
const TIOCPKT_IOCTL = syscall.TIOCPKT_IOCTL
const TIOCPKT_NOSTOP = syscall.TIOCPKT_NOSTOP
const TIOCPKT_START = syscall.TIOCPKT_START
const TIOCPKT_STOP = syscall.TIOCPKT_STOP
const TIOCSBRK = syscall.TIOCSBRK
const TIOCSCTTY = syscall.TIOCSCTTY
const TIOCSERCONFIG = syscall.TIOCSERCONFIG
const TIOCSERGETLSR = syscall.TIOCSERGETLSR
const TIOCSERGETMULTI = syscall.TIOCSERGETMULTI
const TIOCSERGSTRUCT = syscall.TIOCSERGSTRUCT
const TIOCSERGWILD = syscall.TIOCSERGWILD
const TIOCSERSETMULTI = syscall.TIOCSERSETMULTI
const TIOCSERSWILD = syscall.TIOCSERSWILD
const TIOCSER_TEMT = syscall.TIOCSER_TEMT
const TIOCSETD = syscall.TIOCSETD
const TIOCSIG = syscall.TIOCSIG
const TIOCSLCKTRMIOS = syscall.TIOCSLCKTRMIOS
const TIOCSPGRP = syscall.TIOCSPGRP
const TIOCSPTLCK = syscall.TIOCSPTLCK
const TIOCSRS485 = syscall.TIOCSRS485
const TIOCSSERIAL = syscall.TIOCSSERIAL
const TIOCSSOFTCAR = syscall.TIOCSSOFTCAR
const TIOCSTI = syscall.TIOCSTI
const TIOCSWINSZ = syscall.TIOCSWINSZ
const TOSTOP = syscall.TOSTOP
const TUNATTACHFILTER = syscall.TUNATTACHFILTER
const TUNDETACHFILTER = syscall.TUNDETACHFILTER
const TUNGETFEATURES = syscall.TUNGETFEATURES
const TUNGETIFF = syscall.TUNGETIFF
const TUNGETSNDBUF = syscall.TUNGETSNDBUF
const TUNGETVNETHDRSZ = syscall.TUNGETVNETHDRSZ
const TUNSETDEBUG = syscall.TUNSETDEBUG
const TUNSETGROUP = syscall.TUNSETGROUP
const TUNSETIFF = syscall.TUNSETIFF
const TUNSETLINK = syscall.TUNSETLINK
const TUNSETNOCSUM = syscall.TUNSETNOCSUM
const TUNSETOFFLOAD = syscall.TUNSETOFFLOAD
const TUNSETOWNER = syscall.TUNSETOWNER
const TUNSETPERSIST = syscall.TUNSETPERSIST
const TUNSETSNDBUF = syscall.TUNSETSNDBUF
const TUNSETTXFILTER = syscall.TUNSETTXFILTER
const TUNSETVNETHDRSZ = syscall.TUNSETVNETHDRSZ
var Tee = syscall.Tee
type Termios = syscall.Termios
var Tgkill = syscall.Tgkill
var Time = syscall.Time
type Time_t = syscall.Time_t
var Times = syscall.Times
type Timespec = syscall.Timespec
var TimespecToNsec = syscall.TimespecToNsec
type Timeval = syscall.Timeval
var TimevalToNsec = syscall.TimevalToNsec
type Timex = syscall.Timex
type Tms = syscall.Tms
var Truncate = syscall.Truncate
type Ucred = syscall.Ucred
var Umask = syscall.Umask
var Uname = syscall.Uname
var UnixCredentials = syscall.UnixCredentials
var UnixRights = syscall.UnixRights
var Unlink = syscall.Unlink
var Unlinkat = syscall.Unlinkat
var Unmount = syscall.Unmount
var Unsetenv = syscall.Unsetenv
var Unshare = syscall.Unshare
var Ustat = syscall.Ustat
type Ustat_t = syscall.Ustat_t
type Utimbuf = syscall.Utimbuf
var Utime = syscall.Utime
var Utimes = syscall.Utimes
var UtimesNano = syscall.UtimesNano
type Utsname = syscall.Utsname
const VDISCARD = syscall.VDISCARD
const VEOF = syscall.VEOF
const VEOL = syscall.VEOL
const VEOL2 = syscall.VEOL2
const VERASE = syscall.VERASE
const VINTR = syscall.VINTR
const VKILL = syscall.VKILL
const VLNEXT = syscall.VLNEXT
const VMIN = syscall.VMIN
const VQUIT = syscall.VQUIT
const VREPRINT = syscall.VREPRINT
const VSTART = syscall.VSTART
const VSTOP = syscall.VSTOP
const VSUSP = syscall.VSUSP
const VSWTC = syscall.VSWTC
const VTIME = syscall.VTIME
const VWERASE = syscall.VWERASE
const WALL = syscall.WALL
const WCLONE = syscall.WCLONE
const WCONTINUED = syscall.WCONTINUED
const WEXITED = syscall.WEXITED
const WNOHANG = syscall.WNOHANG
const WNOTHREAD = syscall.WNOTHREAD
const WNOWAIT = syscall.WNOWAIT
const WORDSIZE = syscall.WORDSIZE
const WSTOPPED = syscall.WSTOPPED
const WUNTRACED = syscall.WUNTRACED
var Wait4 = syscall.Wait4
type WaitStatus = syscall.WaitStatus
var Write = syscall.Write
const XCASE = syscall.XCASE
