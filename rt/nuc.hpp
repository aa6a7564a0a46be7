#ifndef VERIF_NUC_HPP
#define VERIF_NUC_HPP
// The public surface of NUClear, straight from the working tree
#include "PowerPlant.hpp"
#include "Reactor.hpp"
#include "threading/Reaction.hpp"
#include "threading/ReactionTask.hpp"
#include "clock.hpp"
#include "id.hpp"
#include "message/CommandLineArguments.hpp"
#include "message/LogMessage.hpp"
#include "message/NetworkConfiguration.hpp"
#include "message/NetworkEvent.hpp"
#include "message/ReactionStatistics.hpp"
#include "message/TimeTravel.hpp"
#include "message/Trace.hpp"
#include "extension/ChronoController.hpp"
#include "extension/IOController.hpp"
#include "extension/NetworkController.hpp"
#include "extension/TraceController.hpp"
#include "dsl/operation/ChronoTask.hpp"
#include "util/demangle.hpp"
#include "h.hpp"
#include "det.hpp"
#include <memory>
#include <set>
#include <string>
#include <thread>
#include <vector>
#endif
