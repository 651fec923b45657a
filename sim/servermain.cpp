// The program itself: server/main.cpp, with its application class derived from
// once more so that events are attributed to the simulated node.
#include "dispatcher.h"
#include "servermain.h"
#include "remoteproxyserverapplication.h"
#include <QDir>
#include <QUrl>
#include <QtDebug>
#include <QSslKey>
#include <QDateTime>
#include <QFileInfo>
#include <QTextStream>
#include <QMessageLogger>
#include <QSslCertificate>
#include <QCoreApplication>
#include <QLoggingCategory>
#include <QSslConfiguration>
#include <QCommandLineParser>
#include <QCommandLineOption>
#include <QStandardPaths>
#include <stdio.h>
#include <unistd.h>
#include "engine.h"
#include "loggingcategories.h"
#include "proxyconfiguration.h"

namespace remoteproxy {
typedef sim::SimApp<RemoteProxyServerApplication> SimServerApplication;
}
using namespace remoteproxy;

#define RemoteProxyServerApplication SimServerApplication
#define main nymea_remoteproxy_main
#include SERVER_MAIN
#undef main

namespace sim {
int serverMain(int argc, char **argv) { return nymea_remoteproxy_main(argc, argv); }
}
