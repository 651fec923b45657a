#include "streams.h"
#include "dispatcher.h"
#include <QHostAddress>
#include <QTimer>

namespace sim {

const char *trName(Transport t)
{
    static const char *n[] = {"tcp", "tls", "unix", "ws", "wss"};
    return n[t];
}

class NativeStream : public Stream, public NativeSock {
public:
    Target tg; uint16_t port; bool ux;
    Conn *m_conn = nullptr;
    void open() override
    {
        if (ux) m_conn = S->connectNativeUnix(node, tg.unixPath, this);
        else m_conn = S->connectNative(node, port == tg.wsPort && tg.wsIp ? tg.wsIp : tg.ip, port, this);
    }
    ~NativeStream() override { if (ep) ep->native = nullptr; }
    void send(const std::string &d) override { if (m_conn) S->nativeSend(this, d); }
    void close() override { if (m_conn) S->nativeClose(this); }
    void abort() override { if (m_conn) S->nativeAbort(this); }
    void vanish() override { if (m_conn) S->nativeVanish(this); }
    void pause(bool p) override { if (p) paused = true; else S->nativeResume(this); }
    Conn *conn() const override { return m_conn; }
    size_t unsent() const override { return m_conn ? S->nativeUnsent(const_cast<NativeStream *>(this)) : 0; }
    void onConnected() override { goUp(); }
    void onConnectFailed(int) override { goDown(DK_REFUSED); }
    void onData(const char *d, size_t n) override { if (Stream::onData) Stream::onData(std::string(d, n)); }
    void onFin() override
    {
        // the usual client: closes when the other side does
        goDown(DK_FIN);
        S->nativeClose(this);
    }
    void onReset(int) override { goDown(DK_RESET); }
};

std::function<void(QSslSocket *)> onEncrypted;

class TlsStream : public Stream {
public:
    Target tg; uint16_t port;
    QSslSocket *sock = nullptr;
    QObject ctx;
    Conn *m_conn = nullptr;
    bool m_dead = false;
    void open() override
    {
        NodeScope sc(node);
        App::setRoot(&ctx, node);
        sock = new QSslSocket(&ctx);
        sock->setPeerVerifyMode(QSslSocket::VerifyNone);
        QObject::connect(sock, &QSslSocket::encrypted, &ctx, [this]() { grab(); if (onEncrypted) onEncrypted(sock); goUp(); });
        QObject::connect(sock, &QSslSocket::connected, &ctx, [this]() { grab(); });
        QObject::connect(sock, &QSslSocket::readyRead, &ctx, [this]() {
            QByteArray d = sock->readAll();
            if (onData && d.size()) onData(std::string(d.constData(), d.size()));
        });
        QObject::connect(sock, &QSslSocket::disconnected, &ctx, [this]() { goDown(DK_FIN); });
        QObject::connect(sock, static_cast<void (QAbstractSocket::*)(QAbstractSocket::SocketError)>(&QAbstractSocket::error), &ctx, [this](QAbstractSocket::SocketError e) {
            if (sock->state() == QAbstractSocket::UnconnectedState || e == QAbstractSocket::ConnectionRefusedError) goDown(e == QAbstractSocket::ConnectionRefusedError ? DK_REFUSED : DK_ERROR);
        });
        sock->connectToHostEncrypted(QString::fromStdString(ipStr(port == tg.wsPort && tg.wsIp ? tg.wsIp : tg.ip)), port);
        grab();
    }
    ~TlsStream() override
    {
        App::dropRoot(&ctx);
        if (sock) { sock->disconnect(&ctx); NodeScope sc(node); delete sock; }
    }
    void grab()
    {
        if (m_conn || !sock) return;
        int fd = (int)sock->socketDescriptor();
        if (fd >= 0 && (size_t)fd < S->files.size() && S->files[fd] && S->files[fd]->ep) m_conn = S->files[fd]->ep->conn;
    }
    void send(const std::string &d) override
    {
        if (m_dead || !sock) return;
        NodeScope sc(node);
        sock->write(d.data(), (qint64)d.size());
    }
    void close() override { if (m_dead || !sock) return; NodeScope sc(node); sock->disconnectFromHost(); }
    File *file() { int fd = sock ? (int)sock->socketDescriptor() : -1; return fd >= 0 && (size_t)fd < S->files.size() ? S->files[fd] : nullptr; }
    void abort() override
    {
        if (m_dead || !sock) return;
        grab();
        m_dead = true;
        if (File *f = file()) {
            if (f->ep) { Endpoint *e = f->ep; e->file = nullptr; if (e->conn->state == 0) e->conn->state = 2; else S->sendRst(e); S->markClosed(e); f->ep = nullptr; }
            f->dead = true;
        }
    }
    void vanish() override
    {
        if (m_dead || !sock) return;
        grab();
        m_dead = true;
        if (File *f = file()) {
            if (f->ep) { Endpoint *e = f->ep; e->file = nullptr; S->markClosed(e); e->wrShut = true; e->conn->pipe[e->side].rstSent = true; if (e->conn->state == 0) e->conn->state = 2; f->ep = nullptr; }
            f->dead = true;
        }
    }
    void pause(bool p) override { node->stalledUntil = p ? S->now + 100000 * SEC : 0; }
    Conn *conn() const override { return m_conn; }
    size_t unsent() const override
    {
        size_t n = 0;
        if (sock && !m_dead) n += (size_t)sock->bytesToWrite() + (size_t)sock->encryptedBytesToWrite();
        if (m_conn) n += S->used(m_conn, 0);
        return n;
    }
};

Stream *makePlain(Node *n, const Target &tg, uint16_t port)
{
    NativeStream *s = new NativeStream;
    s->node = n; s->tg = tg; s->port = port; s->ux = false;
    return s;
}

Stream *makeStream(Transport t, Node *n, const Target &tg)
{
    if (t == TR_TLS || t == TR_WSS) {
        TlsStream *s = new TlsStream;
        s->node = n; s->tg = tg; s->port = t == TR_WSS ? tg.wsPort : tg.tcpPort;
        return s;
    }
    NativeStream *s = new NativeStream;
    s->node = n; s->tg = tg; s->ux = t == TR_UNIX;
    s->port = t == TR_WS ? tg.wsPort : tg.tcpPort;
    return s;
}

// ---------------------------------------------------------------- WebSocket

WsStream::WsStream(Stream *base, const std::string &host, Rng *r) : m_base(base), m_host(host), m_rng(r)
{
    node = base->node;
    base->onUp = [this]() {
        m_base->send("GET / HTTP/1.1\r\nHost: " + m_host + "\r\nUpgrade: websocket\r\nConnection: Upgrade\r\n"
                     "Sec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: " + (badVersion ? "8" : "13") + "\r\n\r\n");
    };
    base->onData = [this](const std::string &d) { m_buf += d; parse(); };
    base->onDown = [this](DownKind k) { goDown(k); };
}

std::string WsStream::frame(int op, bool fin, const std::string &d)
{
    std::string f;
    f.push_back((char)((fin ? 0x80 : 0) | op));
    if (d.size() < 126) f.push_back((char)(0x80 | d.size()));
    else if (d.size() < 65536) { f.push_back((char)(0x80 | 126)); f.push_back((char)(d.size() >> 8)); f.push_back((char)d.size()); }
    else { f.push_back((char)(0x80 | 127)); for (int i = 7; i >= 0; i--) f.push_back((char)((uint64_t)d.size() >> (8 * i))); }
    uint32_t m = (uint32_t)m_rng->next();
    char k[4] = {(char)(m >> 24), (char)(m >> 16), (char)(m >> 8), (char)m};
    f.append(k, 4);
    for (size_t i = 0; i < d.size(); i++) f.push_back((char)(d[i] ^ k[i & 3]));
    return f;
}

void WsStream::send(const std::string &d)
{
    if (m_closing || down) return;
    if (fragment > 0 && d.size() > 8 && m_rng->chance(fragment)) {
        size_t cut = 4 * (1 + m_rng->below(d.size() / 4 - 1)); // text units are 4 bytes wide
        m_base->send(frame(1, false, d.substr(0, cut)));
        if (m_rng->chance(0.3)) m_base->send(frame(9, true, "ping"));
        m_base->send(frame(0, true, d.substr(cut)));
        S->count("ws.fragmented_message");
        return;
    }
    m_base->send(frame(1, true, d));
}

void WsStream::sendBinary(const std::string &d) { m_base->send(frame(2, true, d)); }

void WsStream::close()
{
    if (m_closing) return;
    if (m_hs) m_base->send(frame(8, true, std::string("\x03\xe8", 2)));
    m_closing = true;
    if (!m_hs) { m_base->close(); return; }
    // the closing handshake: the answer ends the connection
    S->after(3 * SEC, [this]() { if (!down) { gaveUp = true; m_base->close(); } });
}

void WsStream::parse()
{
    if (!m_hs) {
        size_t p = m_buf.find("\r\n\r\n");
        if (p == std::string::npos) return;
        bool ok = m_buf.compare(0, 12, "HTTP/1.1 101") == 0;
        m_buf.erase(0, p + 4);
        if (!ok) { goDown(DK_ERROR); m_base->close(); return; }
        m_hs = true;
        goUp();
    }
    while (m_buf.size() >= 2 && !down) {
        int op = m_buf[0] & 15;
        bool fin = m_buf[0] & 0x80;
        uint64_t len = m_buf[1] & 127;
        size_t hdr = 2;
        if (len == 126) {
            if (m_buf.size() < 4) return;
            len = (unsigned char)m_buf[2] << 8 | (unsigned char)m_buf[3];
            hdr = 4;
        } else if (len == 127) {
            if (m_buf.size() < 10) return;
            len = 0;
            for (int i = 0; i < 8; i++) len = len << 8 | (unsigned char)m_buf[2 + i];
            hdr = 10;
        }
        if (m_buf.size() < hdr + len) return;
        std::string d = m_buf.substr(hdr, len);
        m_buf.erase(0, hdr + len);
        if (op == 8) {
            if (!m_closing) { m_closing = true; m_base->send(frame(8, true, d.substr(0, 2))); }
            m_base->close();
            goDown(DK_FIN);
            return;
        }
        if (op == 9) { m_base->send(frame(10, true, d)); continue; }
        if (op == 10) continue;
        m_msg += d;
        if (fin) {
            std::string m;
            m.swap(m_msg);
            if (onData) onData(m);
        }
    }
}

} // namespace sim
