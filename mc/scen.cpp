#include "mc.h"
namespace mc
{
Scenario*& scenario_list()
{
    static Scenario* head = nullptr;
    return head;
}
} // namespace mc
