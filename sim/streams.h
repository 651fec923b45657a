// Byte streams of the raw (protocol level) peers: plain TCP, TLS, unix, WebSocket.
#pragma once
#include "kernel.h"
#include <QObject>
#include <QSslSocket>

namespace sim {

enum Transport { TR_TCP, TR_TLS, TR_UNIX, TR_WS, TR_WSS };
const char *trName(Transport t);
inline bool trIsWs(Transport t) { return t == TR_WS || t == TR_WSS; }

enum DownKind { DK_NONE, DK_FIN, DK_RESET, DK_REFUSED, DK_ERROR };

struct Target { uint32_t ip = 0, wsIp = 0; uint16_t tcpPort = 0, wsPort = 0; std::string unixPath; };

class Stream {
public:
    std::function<void()> onUp;
    std::function<void(const std::string &)> onData;
    std::function<void(DownKind)> onDown;
    virtual ~Stream() {}
    virtual void open() = 0;
    virtual void send(const std::string &d) = 0;
    virtual void close() = 0;     // graceful
    virtual void abort() = 0;     // RST
    virtual void vanish() = 0;    // power loss
    virtual void pause(bool p) = 0;
    virtual Conn *conn() const = 0;
    virtual size_t unsent() const = 0; // not yet read by the other process
    bool up = false, down = false;
    Node *node = nullptr;
    bool alive() const { Conn *c = conn(); return c && c->state == 1 && !c->ep[0].closed && !c->ep[0].reset && !c->ep[1].closed && !c->ep[1].reset; }
    // the proxy's process still has this connection open
    bool proxyHolds() const { Conn *c = conn(); return c && c->state == 1 && !c->ep[1].closed; }
    bool proxySawEnd() const { Conn *c = conn(); return c && (c->ep[1].rxFin || c->ep[1].reset); }
protected:
    void goUp() { if (!up && !down) { up = true; if (onUp) onUp(); } }
    void goDown(DownKind k) { if (!down) { down = true; if (onDown) onDown(k); } }
};

Stream *makeStream(Transport t, Node *n, const Target &tg);
extern std::function<void(QSslSocket *)> onEncrypted; // every TLS handshake of a raw peer
Stream *makePlain(Node *n, const Target &tg, uint16_t port); // clear text whatever the configuration

// WebSocket framing over any stream
class WsStream : public Stream {
public:
    WsStream(Stream *base, const std::string &host, Rng *r);
    ~WsStream() override { delete m_base; }
    void open() override { m_base->open(); }
    void send(const std::string &d) override;   // one text message (perhaps fragmented)
    void sendBinary(const std::string &d);
    void sendRaw(const std::string &d) { m_base->send(d); }
    void close() override;
    void abort() override { m_base->abort(); }
    void vanish() override { m_base->vanish(); }
    void pause(bool p) override { m_base->pause(p); }
    Conn *conn() const override { return m_base->conn(); }
    size_t unsent() const override { return m_base->unsent(); }
    bool wsUp() const { return m_hs; }
    double fragment = 0.0;
    bool badVersion = false;
    bool gaveUp = false;     // closed without having got an answer to its Close frame
private:
    Stream *m_base;
    std::string m_host, m_buf, m_msg;
    bool m_hs = false, m_closing = false;
    Rng *m_rng;
    void parse();
    std::string frame(int op, bool fin, const std::string &d);
    std::deque<std::string> m_pending;
};

} // namespace sim
