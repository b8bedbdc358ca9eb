// Code generated by cmd/genalias. DO NOT EDIT.

package tls

import real "crypto/tls"

type AlertError = real.AlertError
type Certificate = real.Certificate
type CertificateRequestInfo = real.CertificateRequestInfo
type CertificateVerificationError = real.CertificateVerificationError
type CipherSuite = real.CipherSuite

var CipherSuiteName = real.CipherSuiteName
var CipherSuites = real.CipherSuites

type ClientAuthType = real.ClientAuthType
type ClientHelloInfo = real.ClientHelloInfo
type ClientSessionCache = real.ClientSessionCache
type ClientSessionState = real.ClientSessionState
type Config = real.Config
type ConnectionState = real.ConnectionState
type CurveID = real.CurveID

const CurveP256 = real.CurveP256
const CurveP384 = real.CurveP384
const CurveP521 = real.CurveP521
const ECDSAWithP256AndSHA256 = real.ECDSAWithP256AndSHA256
const ECDSAWithP384AndSHA384 = real.ECDSAWithP384AndSHA384
const ECDSAWithP521AndSHA512 = real.ECDSAWithP521AndSHA512
const ECDSAWithSHA1 = real.ECDSAWithSHA1

type ECHRejectionError = real.ECHRejectionError

const Ed25519 = real.Ed25519

type EncryptedClientHelloKey = real.EncryptedClientHelloKey

var InsecureCipherSuites = real.InsecureCipherSuites
var LoadX509KeyPair = real.LoadX509KeyPair

const MLDSA44 = real.MLDSA44
const MLDSA65 = real.MLDSA65
const MLDSA87 = real.MLDSA87
const MLKEM1024 = real.MLKEM1024

var NewLRUClientSessionCache = real.NewLRUClientSessionCache
var NewResumptionState = real.NewResumptionState

const NoClientCert = real.NoClientCert
const PKCS1WithSHA1 = real.PKCS1WithSHA1
const PKCS1WithSHA256 = real.PKCS1WithSHA256
const PKCS1WithSHA384 = real.PKCS1WithSHA384
const PKCS1WithSHA512 = real.PKCS1WithSHA512
const PSSWithSHA256 = real.PSSWithSHA256
const PSSWithSHA384 = real.PSSWithSHA384
const PSSWithSHA512 = real.PSSWithSHA512

var ParseSessionState = real.ParseSessionState
var QUICClient = real.QUICClient

type QUICConfig = real.QUICConfig
type QUICConn = real.QUICConn
type QUICEncryptionLevel = real.QUICEncryptionLevel

const QUICEncryptionLevelApplication = real.QUICEncryptionLevelApplication
const QUICEncryptionLevelEarly = real.QUICEncryptionLevelEarly
const QUICEncryptionLevelHandshake = real.QUICEncryptionLevelHandshake
const QUICEncryptionLevelInitial = real.QUICEncryptionLevelInitial
const QUICErrorEvent = real.QUICErrorEvent

type QUICEvent = real.QUICEvent
type QUICEventKind = real.QUICEventKind

const QUICHandshakeDone = real.QUICHandshakeDone
const QUICNoEvent = real.QUICNoEvent
const QUICRejectedEarlyData = real.QUICRejectedEarlyData
const QUICResumeSession = real.QUICResumeSession

var QUICServer = real.QUICServer

type QUICSessionTicketOptions = real.QUICSessionTicketOptions

const QUICSetReadSecret = real.QUICSetReadSecret
const QUICSetWriteSecret = real.QUICSetWriteSecret
const QUICStoreSession = real.QUICStoreSession
const QUICTransportParameters = real.QUICTransportParameters
const QUICTransportParametersRequired = real.QUICTransportParametersRequired
const QUICWriteData = real.QUICWriteData

type RecordHeaderError = real.RecordHeaderError

const RenegotiateFreelyAsClient = real.RenegotiateFreelyAsClient
const RenegotiateNever = real.RenegotiateNever
const RenegotiateOnceAsClient = real.RenegotiateOnceAsClient

type RenegotiationSupport = real.RenegotiationSupport

const RequestClientCert = real.RequestClientCert
const RequireAndVerifyClientCert = real.RequireAndVerifyClientCert
const RequireAnyClientCert = real.RequireAnyClientCert
const SecP256r1MLKEM768 = real.SecP256r1MLKEM768
const SecP384r1MLKEM1024 = real.SecP384r1MLKEM1024

type SessionState = real.SessionState
type SignatureScheme = real.SignatureScheme

const TLS_AES_128_GCM_SHA256 = real.TLS_AES_128_GCM_SHA256
const TLS_AES_256_GCM_SHA384 = real.TLS_AES_256_GCM_SHA384
const TLS_CHACHA20_POLY1305_SHA256 = real.TLS_CHACHA20_POLY1305_SHA256
const TLS_ECDHE_ECDSA_WITH_AES_128_CBC_SHA = real.TLS_ECDHE_ECDSA_WITH_AES_128_CBC_SHA
const TLS_ECDHE_ECDSA_WITH_AES_128_CBC_SHA256 = real.TLS_ECDHE_ECDSA_WITH_AES_128_CBC_SHA256
const TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256 = real.TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256
const TLS_ECDHE_ECDSA_WITH_AES_256_CBC_SHA = real.TLS_ECDHE_ECDSA_WITH_AES_256_CBC_SHA
const TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384 = real.TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384
const TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305 = real.TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305
const TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256 = real.TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256
const TLS_ECDHE_ECDSA_WITH_RC4_128_SHA = real.TLS_ECDHE_ECDSA_WITH_RC4_128_SHA
const TLS_ECDHE_RSA_WITH_3DES_EDE_CBC_SHA = real.TLS_ECDHE_RSA_WITH_3DES_EDE_CBC_SHA
const TLS_ECDHE_RSA_WITH_AES_128_CBC_SHA = real.TLS_ECDHE_RSA_WITH_AES_128_CBC_SHA
const TLS_ECDHE_RSA_WITH_AES_128_CBC_SHA256 = real.TLS_ECDHE_RSA_WITH_AES_128_CBC_SHA256
const TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256 = real.TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256
const TLS_ECDHE_RSA_WITH_AES_256_CBC_SHA = real.TLS_ECDHE_RSA_WITH_AES_256_CBC_SHA
const TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384 = real.TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384
const TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305 = real.TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305
const TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256 = real.TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256
const TLS_ECDHE_RSA_WITH_RC4_128_SHA = real.TLS_ECDHE_RSA_WITH_RC4_128_SHA
const TLS_FALLBACK_SCSV = real.TLS_FALLBACK_SCSV
const TLS_RSA_WITH_3DES_EDE_CBC_SHA = real.TLS_RSA_WITH_3DES_EDE_CBC_SHA
const TLS_RSA_WITH_AES_128_CBC_SHA = real.TLS_RSA_WITH_AES_128_CBC_SHA
const TLS_RSA_WITH_AES_128_CBC_SHA256 = real.TLS_RSA_WITH_AES_128_CBC_SHA256
const TLS_RSA_WITH_AES_128_GCM_SHA256 = real.TLS_RSA_WITH_AES_128_GCM_SHA256
const TLS_RSA_WITH_AES_256_CBC_SHA = real.TLS_RSA_WITH_AES_256_CBC_SHA
const TLS_RSA_WITH_AES_256_GCM_SHA384 = real.TLS_RSA_WITH_AES_256_GCM_SHA384
const TLS_RSA_WITH_RC4_128_SHA = real.TLS_RSA_WITH_RC4_128_SHA
const VerifyClientCertIfGiven = real.VerifyClientCertIfGiven

var VersionName = real.VersionName

const VersionSSL30 = real.VersionSSL30
const VersionTLS10 = real.VersionTLS10
const VersionTLS11 = real.VersionTLS11
const VersionTLS12 = real.VersionTLS12
const VersionTLS13 = real.VersionTLS13
const X25519 = real.X25519
const X25519MLKEM768 = real.X25519MLKEM768

var X509KeyPair = real.X509KeyPair
