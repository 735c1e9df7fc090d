"""stand-in for cate.util.cli: parses the arguments with the parsers the commands declare and executes the command"""
import argparse
import sys


class CommandError(Exception):
    pass


class Command:
    @classmethod
    def name(cls):
        raise NotImplementedError

    @classmethod
    def parser_kwargs(cls):
        return {}

    @classmethod
    def configure_parser(cls, parser):
        pass

    @classmethod
    def new_monitor(cls):
        from dedop.util.monitor import ConsoleMonitor
        return ConsoleMonitor()

    def execute(self, command_args):
        raise NotImplementedError


class SubCommandCommand(Command):
    @classmethod
    def configure_parser(cls, parser):
        cls.configure_parser_and_subparsers(parser, parser.add_subparsers(metavar='COMMAND'))

    @classmethod
    def configure_parser_and_subparsers(cls, parser, subparsers):
        raise NotImplementedError


def run_main(name, description, version, command_registry, license_text=None, docs_url=None, args=None):
    parser = argparse.ArgumentParser(prog=name, description=description)
    subparsers = parser.add_subparsers(dest='command_name', metavar='COMMAND')
    for c in command_registry:
        p = subparsers.add_parser(c.name(), **c.parser_kwargs())
        c.configure_parser(p)
        p.set_defaults(command_class=c)
    try:
        a = parser.parse_args(sys.argv[1:] if args is None else args)
    except SystemExit as e:
        return e.code or 0
    if not a.command_name:
        parser.print_help()
        return 0
    try:
        a.command_class().execute(a)
    except Exception as e:
        sys.stderr.write('%s: error: %s\n' % (name, e))
        return 1
    return 0
