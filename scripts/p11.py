"""A small PKCS#11 client over ctypes for the demonstrations."""
import ctypes as C, os, sys, tempfile, shutil
U = C.c_ulong
FN = """C_Initialize C_Finalize C_GetInfo C_GetFunctionList C_GetSlotList C_GetSlotInfo C_GetTokenInfo C_GetMechanismList C_GetMechanismInfo C_InitToken C_InitPIN C_SetPIN C_OpenSession C_CloseSession C_CloseAllSessions C_GetSessionInfo C_GetOperationState C_SetOperationState C_Login C_Logout C_CreateObject C_CopyObject C_DestroyObject C_GetObjectSize C_GetAttributeValue C_SetAttributeValue C_FindObjectsInit C_FindObjects C_FindObjectsFinal C_EncryptInit C_Encrypt C_EncryptUpdate C_EncryptFinal C_DecryptInit C_Decrypt C_DecryptUpdate C_DecryptFinal C_DigestInit C_Digest C_DigestUpdate C_DigestKey C_DigestFinal C_SignInit C_Sign C_SignUpdate C_SignFinal C_SignRecoverInit C_SignRecover C_VerifyInit C_Verify C_VerifyUpdate C_VerifyFinal C_VerifyRecoverInit C_VerifyRecover C_DigestEncryptUpdate C_DecryptDigestUpdate C_SignEncryptUpdate C_DecryptVerifyUpdate C_GenerateKey C_GenerateKeyPair C_WrapKey C_UnwrapKey C_DeriveKey C_SeedRandom C_GenerateRandom C_GetFunctionStatus C_CancelFunction C_WaitForSlotEvent C_GetInterfaceList C_GetInterface C_LoginUser C_SessionCancel C_MessageEncryptInit C_EncryptMessage C_EncryptMessageBegin C_EncryptMessageNext C_MessageEncryptFinal C_MessageDecryptInit C_DecryptMessage C_DecryptMessageBegin C_DecryptMessageNext C_MessageDecryptFinal C_MessageSignInit C_SignMessage C_SignMessageBegin C_SignMessageNext C_MessageSignFinal C_MessageVerifyInit C_VerifyMessage C_VerifyMessageBegin C_VerifyMessageNext C_MessageVerifyFinal C_EncapsulateKey C_DecapsulateKey C_VerifySignatureInit C_VerifySignature C_VerifySignatureUpdate C_VerifySignatureFinal C_GetSessionValidationFlags C_AsyncComplete C_AsyncGetID C_AsyncJoin C_WrapKeyAuthenticated C_UnwrapKeyAuthenticated""".split()
SO = b"12345678"
UP = b"11223344"


class MECH(C.Structure):
    _fields_ = [("m", U), ("p", C.c_void_p), ("n", U)]


class ATTR(C.Structure):
    _fields_ = [("t", U), ("p", C.c_void_p), ("n", U)]


def ul(x):
    return (x & (2**64 - 1)).to_bytes(8, "little")


def b(x):
    return b"\1" if x else b"\0"


def tmpl(d):
    """d: list of (type, bytes)"""
    a = (ATTR * len(d))()
    keep = []
    for i, (t, v) in enumerate(d):
        buf = C.create_string_buffer(v, max(1, len(v)))
        keep.append(buf)
        a[i] = ATTR(t, C.cast(buf, C.c_void_p), len(v))
    a._keep = keep
    return a


def mech(m, p=None):
    if p is None:
        return MECH(m, None, 0)
    x = MECH(m, None, 0)
    x._b = p if isinstance(p, C.Structure) else C.create_string_buffer(p, max(1, len(p)))
    x.p = C.cast(C.pointer(x._b), C.c_void_p)
    x.n = C.sizeof(p) if isinstance(p, C.Structure) else len(p)
    return x


class Lib:
    def __init__(self, so=None):
        so = so or os.environ.get("P11LIB") or os.path.join(os.getcwd(), "target/debug/libkryoptic_pkcs11.so")
        self.l = C.CDLL(so)
        pp = C.c_void_p()
        ver = (C.c_ubyte * 2)(3, 2)
        r = self.l.C_GetInterface(b"PKCS 11", ver, C.byref(pp), U(0))
        assert r == 0, "C_GetInterface %#x" % r
        tab = C.cast(pp, C.POINTER(C.c_void_p * 3)).contents[1]
        arr = C.cast(tab + 8, C.POINTER(C.c_void_p * len(FN))).contents
        self.f = {}
        for i, n in enumerate(FN):
            if arr[i]:
                self.f[n] = C.CFUNCTYPE(U)(arr[i])

    def __getattr__(self, n):
        fn = self.f[n]

        def call(*a):
            v = []
            for x in a:
                if x is None:
                    v.append(C.c_void_p(None))
                elif isinstance(x, int):
                    v.append(U(x))
                elif isinstance(x, C.Structure):
                    v.append(C.byref(x))
                else:
                    v.append(x)
            return fn(*v)

        return call


def ck(rv, what=""):
    if rv != 0:
        raise SystemExit("unexpected error %#x %s" % (rv, what))


class Env:
    """a scratch directory with one or more initialised tokens; slot numbers 1.."""

    def __init__(self, db="sqlite", slots=1, so=None):
        self.dir = tempfile.mkdtemp(prefix="demo")
        self.db = db
        conf = ""
        for i in range(1, slots + 1):
            if db == "sqlite":
                conf += '[[slots]]\nslot = %d\ndbtype = "sqlite"\ndbargs = "%s/t%d.sql"\n' % (i, self.dir, i)
            else:
                conf += '[[slots]]\nslot = %d\ndbtype = "nssdb"\ndbargs = "configDir=%s flags=passwordRequired"\n' % (i, self.dir)
        open(self.dir + "/c.conf", "w").write(conf)
        os.environ["KRYOPTIC_CONF"] = self.dir + "/c.conf"
        self.L = Lib(so)
        ck(self.L.C_Initialize(None), "init")

    def restart(self):
        ck(self.L.C_Finalize(None))
        ck(self.L.C_Initialize(None))

    def inittoken(self, slot=1):
        ck(self.L.C_InitToken(slot, SO, len(SO), b"demo".ljust(32)), "inittoken")
        s = self.open(slot)
        ck(self.L.C_Login(s, 0, SO, len(SO)), "so login")
        ck(self.L.C_InitPIN(s, UP, len(UP)), "initpin")
        ck(self.L.C_Logout(s))
        ck(self.L.C_CloseSession(s))

    def open(self, slot=1, rw=True):
        h = U()
        ck(self.L.C_OpenSession(slot, 6 if rw else 4, None, None, C.byref(h)), "open")
        return h.value

    def user(self, slot=1):
        s = self.open(slot)
        ck(self.L.C_Login(s, 1, UP, len(UP)), "login")
        return s

    def create(self, s, d):
        h = U()
        rv = self.L.C_CreateObject(s, tmpl(d), len(d), C.byref(h))
        return rv, h.value

    def genkey(self, s, m, d):
        h = U()
        rv = self.L.C_GenerateKey(s, m, tmpl(d), len(d), C.byref(h))
        return rv, h.value

    def get(self, s, o, t, n=512):
        buf = C.create_string_buffer(n)
        a = (ATTR * 1)()
        a[0] = ATTR(t, C.cast(buf, C.c_void_p), n)
        rv = self.L.C_GetAttributeValue(s, o, a, 1)
        return rv, (buf.raw[: a[0].n] if rv == 0 else None)

    def set(self, s, o, d):
        return self.L.C_SetAttributeValue(s, o, tmpl(d), len(d))

    def find(self, s, d, n=64):
        ck(self.L.C_FindObjectsInit(s, tmpl(d), len(d)), "findinit")
        hs = (U * n)()
        c = U()
        ck(self.L.C_FindObjects(s, hs, n, C.byref(c)), "find")
        ck(self.L.C_FindObjectsFinal(s))
        return list(hs[: c.value])

    def op(self, init, fn, s, m, key, data, out=4096):
        if key is None:
            rv = getattr(self.L, init)(s, m)
        else:
            rv = getattr(self.L, init)(s, m, key)
        if rv:
            return rv, None
        buf = C.create_string_buffer(out)
        n = U(out)
        rv = getattr(self.L, fn)(s, data, len(data), buf, C.byref(n))
        return rv, (buf.raw[: n.value] if rv == 0 else None)

    def step(self, fn, s, data=None, out=4096):
        buf = C.create_string_buffer(max(out, 1))
        n = U(out)
        if data is None:
            rv = getattr(self.L, fn)(s, buf, C.byref(n))
        else:
            rv = getattr(self.L, fn)(s, data, len(data), buf, C.byref(n))
        return rv, (buf.raw[: n.value] if rv == 0 else None)

    def done(self):
        shutil.rmtree(self.dir, ignore_errors=True)
