#pragma once
#include <atomic>
#include <list>
#include <yazpp/socket-observer.h>
namespace yazpp_1 {
    // length of a "second" of timeoutObserver in milliseconds (stand-in only)
    extern std::atomic<int> shim_second_ms;
    class SocketManager : public ISocketObservable {
        struct Entry {
            ISocketObserver *observer;
            int fd;
            int mask;
            int timeout;
            long long last;
        };
        struct Event {
            ISocketObserver *observer;
            int event;
        };
        std::list<Entry> m_entries;
        std::list<Event> m_events;
        Entry *find(ISocketObserver *);
        bool deliver();
        SocketManager(const SocketManager &);
    public:
        SocketManager();
        virtual ~SocketManager();
        void addObserver(int fd, ISocketObserver *observer);
        void deleteObserver(ISocketObserver *observer);
        void deleteObservers();
        void maskObserver(ISocketObserver *observer, int mask);
        void timeoutObserver(ISocketObserver *observer, int timeout);
        int processEvent();
        int getNumberOfObservers();
    };
}
