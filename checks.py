"""Which driver, specification and model-checking configurations decide which property."""

DRIVERS = {
    'alloc': dict(src='alloc.cpp'),
    'combine': dict(src='combine.cpp'),
    'pool': dict(src='pool.cpp'),
    'timer': dict(src='timer.cpp'),
    'loop': dict(src='loop.cpp'),
    'ref': dict(src='ref.cpp'),
    'signal': dict(src='signal.cpp'),
    'scope': dict(src='scope.cpp'),
    'stop': dict(src='stop.cpp'),
    'detached': dict(src='detached.cpp'),
    'task': dict(src='task.cpp'),
    'fiber': dict(src='fiber.cpp', more=['fiber2.cpp'], deps=['fiber2.h']),
    'gen': dict(src='gen.cpp'),
    'event': dict(src='event.cpp'),
    'mutex': dict(src='mutex.cpp'),
    'promise': dict(src='promise.cpp'),
    'tsqueue': dict(src='tsqueue.cpp'),
    'queue': dict(src='queue.cpp'),
    'channel': dict(src='channel.cpp'),
    'guards': dict(src='guards.cpp'),
    'stack': dict(src='stack.cpp'),
    'ptrtag': dict(src='ptrtag.cpp'),
    'amain': dict(src='amain.cpp'),
    'guard': dict(src='guard.cpp'),
}

TIERS = dict(quick=dict(seconds=8, traces=10000), thorough=dict(seconds=150, traces=60000))


def tiers(**kw):
    t = {k: dict(v) for k, v in TIERS.items()}
    for k, v in kw.items():
        t[k].update(v)
    return t


CHECKS = {
    'Y01': dict(spec='MainTrace', jobs=[dict(driver='amain')], mc=[dict(module='MainMC'), dict(module='MainMC', cfg='MainMClive.cfg')], tiers=tiers()),
    'B01': dict(spec='StackTrace', jobs=[dict(driver='stack', flavours='co', args=['--max-steps', '3000000', '--per', '1', '--modes', 'r'])], mc=[dict(module='StackMC'), dict(module='StackMC', cfg='StackMCbig.cfg', workers=8, tiers=('thorough',))], tiers=tiers()),
    'N01': dict(spec='PtrTagTrace', jobs=[dict(driver='ptrtag', flavours='ac')], mc=[dict(module='PtrTagMC'), dict(module='PtrTagMC', cfg='PtrTagMCbig.cfg', workers=8, tiers=('thorough',))], tiers=tiers()),
    'G01': dict(spec='GuardsTrace', jobs=[dict(driver='guards', flavours='ac')], mc=[dict(module='GuardsMC'), dict(module='GuardsMC', cfg='GuardsMClive.cfg'), dict(module='GuardsMC', cfg='GuardsMCbig.cfg', workers=8, tiers=('thorough',))], tiers=tiers()),
    'A01': dict(spec='AllocTrace', jobs=[dict(driver='alloc', flavours='a')], mc=[dict(module='AllocMC'), dict(module='AllocMC', cfg='AllocMClive.cfg'), dict(module='AllocMC', cfg='AllocMCbig.cfg', workers=8, tiers=('thorough',))], tiers=tiers()),
    'E01': dict(spec='EventTrace', jobs=[dict(driver='event', variant='manual')], mc=[dict(module='EventMC')], tiers=tiers()),
    'E02': dict(spec='EventTrace', jobs=[dict(driver='event', variant='auto')], mc=[dict(module='EventMC')], tiers=tiers()),
    'E03': dict(spec='EventTrace', jobs=[dict(driver='event', variant='latch')], mc=[dict(module='EventMC')], tiers=tiers()),
    'M01': dict(spec='MutexTrace', jobs=[dict(driver='mutex')], mc=[dict(module='MutexMC')], tiers=tiers()),
    'M02': dict(spec='GuardTrace', jobs=[dict(driver='guard', flavours='a')], mc=[dict(module='GuardMC')], tiers=tiers()),
    'C01': dict(spec='ChannelTrace', jobs=[dict(driver='channel')], mc=[dict(module='ChannelMC', tiers=('quick',)), dict(module='ChannelMC', cfg='ChannelMClive.cfg'), dict(module='ChannelMC', cfg='ChannelMCbig.cfg', workers=8, tiers=('thorough',))], tiers=tiers()),
    'Q01': dict(spec='QueueTrace', jobs=[dict(driver='queue')], mc=[dict(module='QueueMC', tiers=('quick',)), dict(module='QueueMC', cfg='QueueMC2.cfg', tiers=('quick',)), dict(module='QueueMC', cfg='QueueMClive.cfg'), dict(module='QueueMC', cfg='QueueMCbig.cfg', workers=8, tiers=('thorough',)), dict(module='QueueMC', cfg='QueueMC2big.cfg', workers=8, tiers=('thorough',))], tiers=tiers()),
    'Q02': dict(spec='TsQueueTrace', jobs=[dict(driver='tsqueue')], mc=[dict(module='TsQueueMC')], tiers=tiers()),
    'P01': dict(spec='PromiseTrace', jobs=[dict(driver='promise')], mc=[dict(module='PromiseMC'), dict(module='PromiseMC', cfg='PromiseMC2.cfg', workers=8, tiers=('thorough',)), dict(module='PromiseMC', cfg='PromiseMClive.cfg', workers=8, tiers=('thorough',))], tiers=tiers()),
    'P02': dict(spec='CombineTrace', jobs=[dict(driver='combine')], mc=[dict(module='CombineMC'), dict(module='CombineMC', cfg='CombineMC3.cfg', workers=8, tiers=('thorough',))], tiers=tiers()),
    'T01': dict(spec='PoolTrace', jobs=[dict(driver='pool')], mc=[dict(module='PoolMC'), dict(module='PoolMC', cfg='PoolMClive.cfg')], tiers=tiers()),
    'T02': dict(spec='TimerTrace', jobs=[dict(driver='timer')], mc=[dict(module='TimerMC'), dict(module='TimerMC', cfg='TimerMClive.cfg'), dict(module='TimerMC', cfg='TimerMCbig.cfg', workers=8, tiers=('thorough',))], tiers=tiers()),
    'D01': dict(spec='LoopTrace', jobs=[dict(driver='loop')], mc=[dict(module='LoopMC', tiers=('quick',)), dict(module='LoopMC', cfg='LoopMClive.cfg'), dict(module='LoopMC', cfg='LoopMCbig.cfg', workers=8, tiers=('thorough',))], tiers=tiers()),
    'R01': dict(spec='RefTrace', jobs=[dict(driver='ref', variant='seq', share=0.5), dict(driver='ref', variant='mt', share=0.5)], mc=[dict(module='RefMC'), dict(module='RefMC', cfg='RefMC2.cfg', workers=8, tiers=('thorough',))], tiers=tiers()),
    'R02': dict(spec='RefTrace', jobs=[dict(driver='ref', variant='atomic')], mc=[dict(module='RefMC', cfg='RefMClive.cfg'), dict(module='RefMC', cfg='RefMC2.cfg', workers=8, tiers=('thorough',))], tiers=tiers()),
    'S01': dict(spec='SignalTrace', jobs=[dict(driver='signal', variant='seq')], mc=[dict(module='SignalMC'), dict(module='SignalMC', cfg='SignalMC3.cfg')], tiers=tiers()),
    'S02': dict(spec='SignalTrace', jobs=[dict(driver='signal', variant='mt')], mc=[dict(module='SignalMC'), dict(module='SignalMC', cfg='SignalMC2.cfg', workers=8, tiers=('thorough',))], tiers=tiers()),
    'S03': dict(spec='SignalTrace', jobs=[dict(driver='signal', variant='mgr', share=0.5), dict(driver='signal', variant='mgrmt', share=0.5)], mc=[dict(module='SignalMC', cfg='SignalMC3.cfg')], tiers=tiers()),
    'L01': dict(spec='ScopeTrace', jobs=[dict(driver='scope')], mc=[dict(module='ScopeMC', tiers=('quick',)), dict(module='ScopeMC', cfg='ScopeMClive.cfg'), dict(module='ScopeMC', cfg='ScopeMCbig.cfg', workers=8, tiers=('thorough',))], tiers=tiers()),
    'X01': dict(spec='StopTrace', jobs=[dict(driver='stop')], mc=[dict(module='StopMC'), dict(module='StopMC', cfg='StopMClive.cfg'), dict(module='StopMC', cfg='StopMCbig.cfg', workers=8, tiers=('thorough',))], tiers=tiers()),
    'K04': dict(spec='DetachedTrace', jobs=[dict(driver='detached', variant='detached')], mc=[dict(module='DetachedMC'), dict(module='DetachedMC', cfg='DetachedMClive.cfg'), dict(module='DetachedMC', cfg='DetachedMCbig.cfg', workers=8, tiers=('thorough',))], tiers=tiers()),
    'K05': dict(spec='DetachedTrace', jobs=[dict(driver='detached', variant='future')], mc=[dict(module='DetachedMC'), dict(module='DetachedMC', cfg='DetachedMClive.cfg')], tiers=tiers()),
    'F01': dict(spec='FiberTrace', jobs=[dict(driver='fiber', flavours='atc')], mc=[dict(module='FiberMC'), dict(module='FiberMC', cfg='FiberMClive.cfg', tiers=('thorough',)), dict(module='FiberMC', cfg='FiberMCbig.cfg', workers=8, tiers=('thorough',))], tiers=tiers()),
    'K01': dict(spec='TaskTrace', jobs=[dict(driver='task')], mc=[dict(module='TaskMC'), dict(module='TaskMC', cfg='TaskMClive.cfg', tiers=('thorough',)), dict(module='TaskMC', cfg='TaskMCbig.cfg', workers=8, tiers=('thorough',))], tiers=tiers()),
    'K02': dict(spec='GenTrace', jobs=[dict(driver='gen', variant='sync')], mc=[dict(module='GenMC'), dict(module='GenMC', cfg='GenMClive.cfg'), dict(module='GenMC', cfg='GenMCbig.cfg', workers=8, tiers=('thorough',))], tiers=tiers()),
    'K03': dict(spec='GenTrace', jobs=[dict(driver='gen', variant='async')], mc=[dict(module='GenMC'), dict(module='GenMC', cfg='GenMClive.cfg'), dict(module='GenMC', cfg='GenMCbig.cfg', workers=8, tiers=('thorough',))], tiers=tiers()),
}
