// Build configuration of redGrapes under the simulator (same shape as examples/config/redGrapes_config.hpp).
#pragma once
#include <cstddef>
extern "C"
{
    extern unsigned sim_condvar_timeout;
    extern size_t sim_alloc_chunksize;
}
#define REDGRAPES_CONDVAR_TIMEOUT (sim_condvar_timeout)
#define REDGRAPES_ALLOC_CHUNKSIZE (sim_alloc_chunksize)
#include <redGrapes/scheduler/tag_match_property.hpp>
#include <redGrapes/task/property/label.hpp>

enum SchedulerTags
{
    SCHED_MPI,
    SCHED_CUDA,
    SCHED_X
};
#define REDGRAPES_TASK_PROPERTIES redGrapes::LabelProperty, redGrapes::scheduler::SchedulingTagProperties<SchedulerTags>

template<>
struct fmt::formatter<SchedulerTags>
{
    constexpr auto parse(format_parse_context& ctx)
    {
        return ctx.begin();
    }
    template<typename FormatContext>
    auto format(SchedulerTags const& tag, FormatContext& ctx)
    {
        return fmt::format_to(ctx.out(), "{}", (int) tag);
    }
};
