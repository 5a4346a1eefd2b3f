"""Commands of another distribution, which note how they were called."""
CALLS = []


def hello(args):
    CALLS.append(["hello", list(args)])


def config_hello(args):
    CALLS.append(["config hello", list(args)])


def plugins_hello(args, plugin_loader):
    plugin_loader.namespaces  # noqa: B018
    CALLS.append(["plugins hello", list(args)])
