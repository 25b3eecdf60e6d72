from seedlib import *
from seeds_p05 import A, SRC, F
seed('p06-abandoned-leak', 'P06', [(F, '''Writer::~Writer()
{
    disconnect();''', '''Writer::~Writer()
{
    if (isConnected()) {
        disconnect();
    }''')], A + '''
int main() { TQ* q = queue(1, 1); Writer* w = new Writer; w->setQueue(q); auto r = std::make_shared<Reader>(); w->connect(r);
    r->disconnect(1); if (died) return 1; wdel(w); return died == 1 ? 0 : 1; }
''', SRC, 'the consumer leaves first, then the writer is destroyed', 'the queue is never destroyed')
seed('p06-last-but-one', 'P06', [(F, '    if (filters.size() > 0){', '    if (filters.size() > 1){')], A + '''
int main() { TQ* q = queue(1, 1); Writer w; w.setQueue(q); auto r = std::make_shared<Reader>(); w.connect(r);
    r->addReader(2, 2); r->disconnect(2); return q->isConnected() && r->isConnected() && !died ? 0 : 1; }
''', SRC, 'two consumers share a reader and one leaves', 'the remaining consumer loses its connection')
seed('p06-dangling', 'P06', [(F, '''        delete queue;
        queue = NULL;
    }
    return true;''', '''        delete queue;
    }
    return true;''')], A + '''
int main() { TQ* q = queue(1, 1); Writer w; w.setQueue(q); auto r = std::make_shared<Reader>(); w.connect(r);
    r->disconnect(1); w.disconnect(); bool ok = died == 1 && w.queue == NULL; w.queue = NULL; return ok ? 0 : 1; }
''', SRC, 'the writer disconnects after the consumer', 'the writer keeps referring to the destroyed queue and destroys it again')
seed('p06-list-cleared', 'P06', [('src/FrameQueue.hh', '''                i = connectionData.readers.erase(i);
                return true;''', '''                connectionData.readers.erase(i, connectionData.readers.end());
                return true;''')], A + '''
int main() { TQ* q = queue(1, 1); Writer w; w.setQueue(q); auto r = std::make_shared<Reader>(); w.connect(r);
    r->addReader(2, 2); r->addReader(3, 2); r->disconnect(2); return q->getCData().readers.size() == 2 ? 0 : 1; }
''', SRC, 'three consumers share a reader and the second leaves', 'the registrations after its own are withdrawn too')
seed('p06-refuses-abandoned', 'P06', [(F, '''    filters.erase(id);
    if (queue){''', '''    filters.erase(id);
    if (queue && queue->isConnected()){'''), (F, '''    return disconnectQueue();
}

bool Reader::isConnected()''', '''    return isConnected() && disconnectQueue();
}

bool Reader::isConnected()''')], A + '''
int main() { TQ* q = queue(1, 1); Writer w; w.setQueue(q); auto r = std::make_shared<Reader>(); w.connect(r);
    w.disconnect(); return r->disconnect(1) && died == 1 && !r->queue ? 0 : 1; }
''', SRC, 'the writer leaves first, then the last consumer', 'the queue is not destroyed')
