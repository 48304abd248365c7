#include "h.h"
extern const Family fam_ops, fam_timers, fam_sockets, fam_signals, fam_qobj, fam_rounds;
const Family* const g_families[] = { &fam_ops, &fam_timers, &fam_sockets,
                                      &fam_signals, &fam_rounds,
#ifdef XDSIM_QT
                                      &fam_qobj,
#endif
                                      nullptr };
// focus numbers are those of the family's Focus enumeration
const Plan g_plans[] = {
    { "X01", &fam_ops, 0, 6 },  { "X01", &fam_ops, 7, 2 },  { "X01", &fam_ops, 8, 1 },
    { "X01", &fam_ops, 11, 1 }, { "X01", &fam_ops, 2, 1 },  { "X01", &fam_ops, 9, 1 },
    { "X01", &fam_ops, 6, 1 },
    { "X02", &fam_ops, 0, 4 },  { "X02", &fam_ops, 11, 1 }, { "X02", &fam_ops, 9, 2 },
    { "X02", &fam_ops, 1, 1 },  { "X02", &fam_ops, 2, 1 },
    { "X03", &fam_ops, 0, 2 },  { "X03", &fam_ops, 2, 1 },  { "X03", &fam_ops, 1, 1 },
    { "X03", &fam_ops, 3, 1 },  { "X03", &fam_ops, 4, 1 },  { "X03", &fam_ops, 6, 1 },
    { "X03", &fam_ops, 8, 1 },  { "X03", &fam_ops, 11, 1 }, { "X03", &fam_timers, 1, 1 },
    { "X03", &fam_sockets, 1, 1 }, { "X03", &fam_signals, 2, 1 }, { "X03", &fam_signals, 3, 1 },
    { "X03", &fam_signals, 4, 1 },
    { "X04", &fam_ops, 11, 5 }, { "X04", &fam_ops, 5, 1 },  { "X04", &fam_ops, 0, 1 },
    { "X04", &fam_ops, 3, 1 },
    { "X05", &fam_ops, 1, 4 },  { "X05", &fam_ops, 7, 1 },
    { "X06", &fam_ops, 2, 5 },  { "X06", &fam_signals, 0, 1 },
    { "X07", &fam_ops, 3, 1 },
    { "X08", &fam_ops, 4, 1 },
    { "X09", &fam_ops, 5, 1 },
    { "X10", &fam_timers, 0, 2 }, { "X10", &fam_timers, 1, 1 },
    { "X11", &fam_timers, 1, 3 }, { "X11", &fam_timers, 0, 1 },
    { "X12", &fam_sockets, 0, 2 }, { "X12", &fam_sockets, 1, 1 },
    { "X13", &fam_sockets, 1, 1 },
    { "X14", &fam_signals, 0, 3 }, { "X14", &fam_signals, 2, 1 }, { "X14", &fam_signals, 3, 1 },
    { "X15", &fam_signals, 1, 3 }, { "X15", &fam_signals, 3, 1 },
    { "X16", &fam_signals, 2, 3 }, { "X16", &fam_signals, 3, 1 },
    { "X17", &fam_signals, 3, 2 }, { "X17", &fam_signals, 4, 2 }, { "X17", &fam_signals, 2, 1 },
    { "X18", &fam_ops, 6, 1 },
    { "X19", &fam_ops, 7, 5 },  { "X19", &fam_ops, 8, 2 },  { "X19", &fam_timers, 0, 1 },
    { "X19", &fam_sockets, 0, 1 },
    { "X20", &fam_ops, 8, 1 },
    { "X21", &fam_ops, 9, 4 },  { "X21", &fam_timers, 0, 1 }, { "X21", &fam_sockets, 0, 1 },
    { "X21", &fam_signals, 0, 1 },
    { "X22", &fam_ops, 10, 1 },
    { "X27", &fam_rounds, 0, 1 },
#ifdef XDSIM_QT
    { "X23", &fam_ops, 12, 4 }, { "X23", &fam_timers, 2, 1 }, { "X23", &fam_sockets, 2, 1 },
    { "X23", &fam_signals, 5, 2 }, { "X24", &fam_qobj, 0, 3 }, { "X24", &fam_qobj, 1, 2 },
    { "X23", &fam_rounds, 1, 1 }, { "X24", &fam_rounds, 1, 1 }, { "X27", &fam_rounds, 1, 1 },
#endif
    { nullptr, nullptr, 0, 0 }
};
