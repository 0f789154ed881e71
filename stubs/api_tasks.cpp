// Instantiates the task templates, so that their bodies are part of the analysed program.
#include "fly/task/task_manager.hpp"
#include "fly/task/task_runner.hpp"
#include "fly/types/concurrency/concurrent_queue.hpp"
#include "fly/types/concurrency/concurrent_stack.hpp"

#include <chrono>
#include <memory>
#include <string>

template class fly::detail::ConcurrentContainer<int, std::queue<int>>;
template class fly::detail::ConcurrentContainer<int, std::stack<int>>;
template class fly::ConcurrentQueue<int>;
template class fly::ConcurrentStack<int>;

namespace verif_stub {

struct Owner
{
};

bool instantiate_pop(fly::ConcurrentQueue<int> &queue, fly::ConcurrentStack<int> &stack)
{
    int item = 0;
    return queue.pop(item, std::chrono::milliseconds(1)) &&
        stack.pop(item, std::chrono::milliseconds(1));
}

// Callables whose bodies are unknown: what the library does with them is all there is to see.
struct VoidTask
{
    void operator()();
    std::shared_ptr<int> m_state;
};
struct IntTask
{
    int operator()();
    std::shared_ptr<int> m_state;
};
struct VoidReply
{
    void operator()();
    std::shared_ptr<int> m_state;
};
struct IntReply
{
    void operator()(int);
    std::shared_ptr<int> m_state;
};
struct OwnedVoidTask
{
    void operator()(std::shared_ptr<Owner>);
    std::shared_ptr<int> m_state;
};
struct OwnedIntTask
{
    int operator()(std::shared_ptr<Owner>);
    std::shared_ptr<int> m_state;
};
struct OwnedVoidReply
{
    void operator()(std::shared_ptr<Owner>);
    std::shared_ptr<int> m_state;
};
struct OwnedIntReply
{
    void operator()(int, std::shared_ptr<Owner>);
    std::shared_ptr<int> m_state;
};

using Runner = fly::task::SequencedTaskRunner;
using Millis = std::chrono::milliseconds;

bool entry_post(std::shared_ptr<Runner> runner, VoidTask task)
{
    return runner->post_task(FROM_HERE, std::move(task));
}
bool entry_post_result(std::shared_ptr<Runner> runner, IntTask task)
{
    return runner->post_task(FROM_HERE, std::move(task));
}
bool entry_post_lvalue(std::shared_ptr<Runner> runner, VoidTask &task)
{
    return runner->post_task(FROM_HERE, task);
}
bool entry_post_owned(std::shared_ptr<Runner> runner, std::weak_ptr<Owner> owner, OwnedVoidTask task)
{
    return runner->post_task(FROM_HERE, owner, std::move(task));
}
bool entry_post_owned_result(std::shared_ptr<Runner> runner, std::weak_ptr<Owner> owner, OwnedIntTask task)
{
    return runner->post_task(FROM_HERE, owner, std::move(task));
}
bool entry_post_owned_lvalue(std::shared_ptr<Runner> runner, std::weak_ptr<Owner> owner, OwnedVoidTask &task)
{
    return runner->post_task(FROM_HERE, owner, task);
}
bool entry_reply(std::shared_ptr<Runner> runner, VoidTask task, VoidReply reply)
{
    return runner->post_task_with_reply(FROM_HERE, std::move(task), std::move(reply));
}
bool entry_reply_result(std::shared_ptr<Runner> runner, IntTask task, IntReply reply)
{
    return runner->post_task_with_reply(FROM_HERE, std::move(task), std::move(reply));
}
bool entry_reply_lvalue(std::shared_ptr<Runner> runner, IntTask &task, IntReply &reply)
{
    return runner->post_task_with_reply(FROM_HERE, task, reply);
}
bool entry_reply_owned(
    std::shared_ptr<Runner> runner, std::weak_ptr<Owner> owner, OwnedVoidTask task, OwnedVoidReply reply)
{
    return runner->post_task_with_reply(FROM_HERE, owner, std::move(task), std::move(reply));
}
bool entry_reply_owned_result(
    std::shared_ptr<Runner> runner, std::weak_ptr<Owner> owner, OwnedIntTask task, OwnedIntReply reply)
{
    return runner->post_task_with_reply(FROM_HERE, owner, std::move(task), std::move(reply));
}
bool entry_reply_owned_lvalue(
    std::shared_ptr<Runner> runner, std::weak_ptr<Owner> owner, OwnedIntTask &task, OwnedIntReply &reply)
{
    return runner->post_task_with_reply(FROM_HERE, owner, task, reply);
}
bool entry_delay(std::shared_ptr<Runner> runner, Millis delay, VoidTask task)
{
    return runner->post_task_with_delay(FROM_HERE, delay, std::move(task));
}
bool entry_delay_owned(
    std::shared_ptr<Runner> runner, Millis delay, std::weak_ptr<Owner> owner, OwnedVoidTask task)
{
    return runner->post_task_with_delay(FROM_HERE, owner, delay, std::move(task));
}
bool entry_delay_reply(std::shared_ptr<Runner> runner, Millis delay, VoidTask task, VoidReply reply)
{
    return runner->post_task_with_delay_and_reply(FROM_HERE, delay, std::move(task), std::move(reply));
}
bool entry_delay_reply_result(std::shared_ptr<Runner> runner, Millis delay, IntTask task, IntReply reply)
{
    return runner->post_task_with_delay_and_reply(FROM_HERE, delay, std::move(task), std::move(reply));
}
bool entry_delay_reply_owned(
    std::shared_ptr<Runner> runner,
    Millis delay,
    std::weak_ptr<Owner> owner,
    OwnedVoidTask task,
    OwnedVoidReply reply)
{
    return runner->post_task_with_delay_and_reply(
        FROM_HERE, owner, delay, std::move(task), std::move(reply));
}
bool entry_delay_reply_owned_result(
    std::shared_ptr<Runner> runner,
    Millis delay,
    std::weak_ptr<Owner> owner,
    OwnedIntTask task,
    OwnedIntReply reply)
{
    return runner->post_task_with_delay_and_reply(
        FROM_HERE, owner, delay, std::move(task), std::move(reply));
}
bool entry_delay_reply_lvalue(std::shared_ptr<Runner> runner, Millis delay, IntTask &task, IntReply &reply)
{
    return runner->post_task_with_delay_and_reply(FROM_HERE, delay, task, reply);
}
bool entry_delay_reply_owned_lvalue(
    std::shared_ptr<Runner> runner,
    Millis delay,
    std::weak_ptr<Owner> owner,
    OwnedIntTask &task,
    OwnedIntReply &reply)
{
    return runner->post_task_with_delay_and_reply(FROM_HERE, owner, delay, task, reply);
}
bool entry_delay_lvalue(std::shared_ptr<Runner> runner, Millis delay, VoidTask &task)
{
    return runner->post_task_with_delay(FROM_HERE, delay, task);
}
bool entry_delay_owned_lvalue(
    std::shared_ptr<Runner> runner, Millis delay, std::weak_ptr<Owner> owner, OwnedVoidTask &task)
{
    return runner->post_task_with_delay(FROM_HERE, owner, delay, task);
}

}  // namespace verif_stub
