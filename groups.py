"""Which contracts, environment models and sources decide which property."""
import json, os
ROOT = os.path.dirname(os.path.abspath(__file__))
GROUPS = {
    'task': dict(contracts=['contracts/task.cpp'], models=['model/qtcore.cpp', 'model/std.cpp']),
    'signal': dict(contracts=['contracts/signal.cpp'], models=['model/qtcore.cpp', 'model/std.cpp'], repo=['repo:core/qcorotimer.cpp']),
    'wait': dict(contracts=['contracts/wait.cpp'], models=['model/qtcore.cpp', 'model/std.cpp']),
    'future': dict(contracts=['contracts/future.cpp'], models=['model/qtcore.cpp', 'model/qtfuture.cpp', 'model/std.cpp']),
    'device': dict(contracts=['contracts/device.cpp'], models=['model/qtcore.cpp', 'model/qtdevice.cpp', 'model/std.cpp'], repo=['repo:core/qcoroiodevice.cpp', 'repo:core/qcoroiodevice_p.cpp', 'gen:moc_qcoroiodevice_p.cpp']),
    'process': dict(contracts=['contracts/process.cpp'], models=['model/qtcore.cpp', 'model/qtdevice.cpp', 'model/qtprocess.cpp', 'model/std.cpp'], repo=['repo:core/qcoroiodevice.cpp', 'repo:core/qcoroiodevice_p.cpp', 'gen:moc_qcoroiodevice_p.cpp', 'repo:core/qcoroprocess.cpp']),
    'thread': dict(contracts=['contracts/thread.cpp'], models=['model/qtcore.cpp', 'model/std.cpp'], repo=['repo:core/qcorothread.cpp']),
    'network': dict(contracts=['contracts/network.cpp'], models=['model/qtcore.cpp', 'model/qtdevice.cpp', 'model/qtprocess.cpp', 'model/qtnetwork.cpp', 'model/qtnames.cpp', 'model/std.cpp'],
                    repo=['repo:core/qcoroiodevice.cpp', 'repo:core/qcoroiodevice_p.cpp', 'gen:moc_qcoroiodevice_p.cpp', 'repo:network/qcoroabstractsocket.cpp', 'repo:network/qcorolocalsocket.cpp', 'repo:network/qcoronetworkreply.cpp', 'repo:network/qcorotcpserver.cpp']),
    'dbus': dict(contracts=['contracts/dbus.cpp'], models=['model/qtcore.cpp', 'model/qtdbus.cpp', 'model/qtnames.cpp', 'model/std.cpp'], repo=['repo:dbus/qcorodbuspendingcall.cpp']),
    'websockets': dict(contracts=['contracts/websockets.cpp'], models=['model/qtcore.cpp', 'model/qtdevice.cpp', 'model/qtprocess.cpp', 'model/qtwebsockets.cpp', 'model/qtnames.cpp', 'model/std.cpp'],
                       repo=['repo:websockets/qcorowebsocket.cpp', 'repo:websockets/qcorowebsocketserver.cpp']),
    'qml': dict(contracts=['contracts/qml.cpp'], models=['model/qtcore.cpp', 'model/qtqml.cpp', 'model/std.cpp'], repo=['repo:qml/qcoroqmltask.cpp', 'gen:moc_qcoroqmltask.cpp', 'repo:core/qcorotimer.cpp']),
    'quick': dict(contracts=['contracts/quick.cpp'], models=['model/qtcore.cpp', 'model/qtquick.cpp', 'model/std.cpp'], repo=['repo:quick/qcoroimageprovider.cpp']),
    'test': dict(contracts=['contracts/test.cpp'], models=['model/qtcore.cpp', 'model/qtnames.cpp', 'model/qttest.cpp', 'model/std.cpp']),
    'generator': dict(contracts=['contracts/generator.cpp'], models=['model/qtcore.cpp', 'model/std.cpp']),
}
PROPS = {
    'C01': dict(groups=['task']),
    'C02': dict(groups=['task']),
    'C03': dict(groups=['task']),
    'C04': dict(groups=['task']),
    'C05': dict(groups=['task']),
    'C06': dict(groups=['wait']),
    'C07': dict(groups=['wait']),
    'C08': dict(groups=['generator']),
    'C09': dict(groups=['generator']),
    'C10': dict(groups=['generator']),
    'C11': dict(groups=['signal']),
    'C12': dict(groups=['signal']),
    'C13': dict(groups=['signal']),
    'C14': dict(groups=['signal']),
    'C15': dict(groups=['future']),
    'C16': dict(groups=['device']),
    'C17': dict(groups=['device', 'network']),
    'C18': dict(groups=['device', 'network']),
    'C19': dict(groups=['process']),
    'C20': dict(groups=['thread']),
    'C21': dict(groups=['network']),
    'C22': dict(groups=['network']),
    'C23': dict(groups=['network']),
    'C24': dict(groups=['network']),
    'C25': dict(groups=['dbus']),
    'C26': dict(groups=['websockets']),
    'C27': dict(groups=['websockets']),
    'C28': dict(groups=['websockets']),
    'C29': dict(groups=['qml']),
    'C30': dict(groups=['quick']),
    'C31': dict(groups=['test']),
    'C32': dict(groups=['device', 'process', 'thread', 'network', 'dbus', 'websockets']),
}
COST = {'vqh_C17_write': 100, 'vqh_C17_writeNamed': 100, 'vqh_C32_write': 100, 'vqh_C17_socketWrite': 60, 'vqh_C17_localSocketWrite': 60, 'vqh_C02_anyNumberOfAwaiters': 90}
LIMITS = {}
EXPLORE = {}
ASSUMPTIONS = [
    'single-threaded use of each object (data races between threads are outside the contracts)',
    'memory allocation succeeds',
    'the compiler implements C++20 coroutines as the standard says (IR is taken before coroutine splitting)',
]
NOTE = ('Every obligation generated from the current sources is discharged for all inputs, all interleavings of the environment\'s choices and all history lengths '
        '(inductive invariants at cut points). Trusted: clang\'s front end, the VC generator in engine/, z3, and the environment contracts for Qt in model/. '
        'Single-threaded use of each object; allocation succeeds.')
NOT_APPLICABLE = {}
def known():
    p = ROOT + '/known_findings.json'
    return json.load(open(p))['findings'] if os.path.exists(p) else []
