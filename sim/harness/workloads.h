#pragma once
namespace sim {
enum SubsMode { SUBS_DELIVER, SUBS_REGISTER, SUBS_LIFE };
void subscriptions(SubsMode mode);
}
