"""Private database servers for one check, in a scratch directory that is removed afterwards."""
import os
import pwd
import shutil
import signal
import subprocess
import tempfile
import time

PGBIN = '/usr/lib/postgresql/16/bin'
ENV = {'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', 'LC_ALL': 'C.UTF-8'}


class ServerError(Exception):
    pass


def scratch_root():
    for base in ('/dev/shm', '/tmp'):
        try:
            st = os.statvfs(base)
            if os.access(base, os.W_OK) and st.f_bavail * st.f_frsize > 600 * 1024 * 1024:
                return base
        except OSError:
            pass
    return tempfile.gettempdir()


class Scratch(object):
    """The scratch directory, plus whatever servers were asked for."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='denorm-dst.', dir=scratch_root())
        os.chmod(self.dir, 0o755)
        self.pg = None
        self.my = None

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.close()

    def close(self):
        if self.pg:
            self._stop_pg()
        if self.my:
            self._stop_my()
        shutil.rmtree(self.dir, ignore_errors=True)

    # -- PostgreSQL
    def _as_pg(self):
        return ['setpriv', '--reuid=postgres', '--regid=postgres', '--clear-groups']

    def start_pg(self):
        d = os.path.join(self.dir, 'pg')
        last = ''
        for attempt in range(3):
            shutil.rmtree(d, ignore_errors=True)
            os.mkdir(d)
            pw = pwd.getpwnam('postgres')
            os.chown(d, pw.pw_uid, pw.pw_gid)
            env = dict(ENV, HOME=d)
            data = os.path.join(d, 'data')
            r = subprocess.run(self._as_pg() + [PGBIN + '/initdb', '-D', data, '-A', 'trust', '-U', 'postgres',
                               '-E', 'UTF8', '--locale=C.UTF-8', '-N'], cwd=d, env=env, stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
            if r.returncode:
                last = r.stdout.decode('utf8', 'replace')
                continue
            opts = ('-c listen_addresses= -c unix_socket_directories=%s -c fsync=off -c full_page_writes=off '
                    '-c synchronous_commit=off -c autovacuum=off -c max_connections=200 -c shared_buffers=64MB '
                    '-c jit=off -c max_worker_processes=0 -c max_parallel_workers=0 -c log_min_messages=fatal '
                    '-c statement_timeout=60s' % d)
            r = subprocess.run(self._as_pg() + [PGBIN + '/pg_ctl', '-D', data, '-l', os.path.join(d, 'log'), '-w',
                               '-t', '120', '-o', opts, 'start'], cwd=d, env=env, stdin=subprocess.DEVNULL,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)
            if r.returncode == 0:
                self.pg = d
                return d
            try:
                last = open(os.path.join(d, 'log')).read()
            except OSError:
                last = 'pg_ctl failed'
            time.sleep(1)
        raise ServerError('cannot start PostgreSQL: %s' % last[-800:])

    def _stop_pg(self):
        d = self.pg
        self.pg = None
        try:
            with open(os.path.join(d, 'data', 'postmaster.pid')) as f:
                pid = int(f.readline())
        except (OSError, ValueError):
            return
        try:
            os.kill(pid, signal.SIGQUIT)
            for i in range(200):
                os.kill(pid, 0)
                time.sleep(0.02)
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass

    # -- MariaDB
    def start_mysql(self):
        d = os.path.join(self.dir, 'my')
        last = ''
        for attempt in range(3):
            shutil.rmtree(d, ignore_errors=True)
            os.mkdir(d)
            pw = pwd.getpwnam('mysql')
            os.chown(d, pw.pw_uid, pw.pw_gid)
            data = os.path.join(d, 'data')
            tmp = os.path.join(d, 'tmp')        # a server that starts removes temporary tables left in this directory
            os.mkdir(tmp)
            os.chown(tmp, pw.pw_uid, pw.pw_gid)
            env = dict(ENV, HOME=d, TMPDIR=tmp)
            r = subprocess.run(['/usr/bin/mariadb-install-db', '--no-defaults', '--user=mysql', '--datadir=' + data,
                                '--auth-root-authentication-method=normal', '--skip-test-db'],
                               env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=300)
            if r.returncode:
                last = r.stdout.decode('utf8', 'replace')
                continue
            log = open(os.path.join(d, 'log'), 'wb')
            sock = os.path.join(d, 'sock')
            proc = subprocess.Popen(['/usr/sbin/mariadbd', '--no-defaults', '--user=mysql', '--datadir=' + data,
                                     '--socket=' + sock, '--pid-file=' + os.path.join(d, 'pid'), '--skip-networking',
                                     '--character-set-server=utf8mb4', '--innodb-flush-log-at-trx-commit=0',
                                     '--innodb-lock-wait-timeout=0', '--lock-wait-timeout=0', '--skip-log-bin',
                                     '--innodb-use-native-aio=0', '--innodb-buffer-pool-size=128M',
                                     '--innodb-log-file-size=16M', '--max-connections=300', '--innodb-flush-method=fsync',
                                     '--innodb-stats-persistent=0', '--innodb-deadlock-detect=0', '--wait-timeout=86400',
                                     '--max-statement-time=60', '--innodb-doublewrite=0', '--tmpdir=' + tmp],
                                    env=env, stdin=subprocess.DEVNULL, stdout=log, stderr=log)
            end = time.monotonic() + 120
            while time.monotonic() < end and proc.poll() is None:
                r = subprocess.run(['/usr/bin/mariadb-admin', '--no-defaults', '-uroot', '-S', sock, 'ping'], env=ENV,
                                   stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                if r.returncode == 0:
                    self.my = proc
                    return sock
                time.sleep(0.05)
            last = open(os.path.join(d, 'log')).read()
            if proc.poll() is None:
                proc.kill()
                proc.wait()
        raise ServerError('cannot start MariaDB: %s' % last[-800:])

    def _stop_my(self):
        proc, self.my = self.my, None
        proc.kill()
        proc.wait()
