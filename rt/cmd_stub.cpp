// Stand-in for the operator command files (cmd_handler.cc): a worker without work.
#include "cmd_handler.h"
namespace jungle {
CmdHandler::CmdHandler(const std::string& w_name, const GlobalConfig&) { workerName = w_name; handle = std::thread(&WorkerBase::loop, this); }
CmdHandler::~CmdHandler() {}
void CmdHandler::applyNewGlobalConfig(const GlobalConfig&) {}
void CmdHandler::work() {}
}
