#include "pbt.h"
#include <QCoreApplication>
int main(int argc, char **argv) {
    QCoreApplication app(argc, argv);
    return pbt::pbtMain(argc, argv);
}
