TI='lib/src/Timer.cpp'; FO='lib/src/io/FdObserver.cpp'; DO='lib/src/dots.cpp'
PR=['C29']
S=[
dict(id='rf29-positive', props=PR, edits=[(TI,'''            if ((timerData.use_count() == 1 && !timerData->discarded) || error == asio::error::operation_aborted)
            {
                return;
            }

            timerData->handler();

            if (timerData->periodic && (timerData.use_count() != 1 || timerData->discarded))
            {
                StartAbsolute(timerData);
            }
''','''            const auto isRegistered = [](const std::shared_ptr<timer_data>& data)
            {
                return data.use_count() > 1 || data->discarded;
            };

            if (isRegistered(timerData) && error != asio::error::operation_aborted)
            {
                timerData->handler();

                if (!timerData->periodic)
                {
                    return;
                }

                if (isRegistered(timerData))
                {
                    StartAbsolute(timerData);
                }
            }
''')]),
dict(id='rf29-split-next', props=PR, edits=[(TI,'''        type::SteadyTimePoint timepoint = timerData->next += timerData->interval;
        timerData->timer.expires_at(std::chrono::time_point_cast<duration_t>(timepoint));
''','''        timerData->next = timerData->next + timerData->interval;
        const type::SteadyTimePoint& timepoint = timerData->next;
        timerData->timer.expires_at(std::chrono::time_point_cast<duration_t>(timepoint));
''')]),
dict(id='rf29-param', props=PR, edits=[(TI,'''        if (m_timerData->periodic)
        {''','''        if (periodic)
        {''')]),
dict(id='rf29-move-handler', props=PR, edits=[(FO,'''            if (error)
            {
                observerData->handler(std::make_exception_ptr(std::runtime_error{ error.message() }));
            }
            else
            {
                observerData->handler(nullptr);

                if (observerData.use_count() != 1 || observerData->discarded)
                {
                    AsyncWait(observerData);
                }
            }
''','''            std::exception_ptr ePtr = error ? std::make_exception_ptr(std::runtime_error{ error.message() }) : std::exception_ptr{ nullptr };
            observerData->handler(ePtr);

            if (ePtr != nullptr)
            {
                return;
            }

            const bool removed = observerData.use_count() == 1 && !observerData->discarded;

            if (!removed)
            {
                AsyncWait(observerData);
            }
''')]),
dict(id='rf29-discard-move', props=PR, edits=[(FO,'''        if (m_observerData != nullptr)
        {
            m_observerData->discarded = true;
            m_observerData = nullptr;
        }
''','''        if (auto observerData = std::exchange(m_observerData, nullptr); observerData != nullptr)
        {
            observerData->discarded = true;
        }
'''),(FO,'#include <dots/io/FdObserver.h>\n','#include <dots/io/FdObserver.h>\n#include <utility>\n')]),
dict(id='rf29-id-find', props=PR, edits=[(DO,'                m_timers.erase(id);\n','''                if (auto it = m_timers.find(id); it != m_timers.end())
                {
                    m_timers.erase(it);
                }
'''),(DO,'''                Timer::id_t id = ++m_lastTimerId;
                m_timers.try_emplace(id, static_cast<asio::io_context&>(context()), timeout, std::move(cb), periodic);

                return id;
''','''                m_lastTimerId += 1;
                m_timers.emplace(m_lastTimerId, Timer{ static_cast<asio::io_context&>(context()), timeout, std::move(cb), periodic });

                return m_lastTimerId;
''')]),
dict(id='rf29-members', props=PR, edits=[(TI,'''        m_timerData{ std::make_shared<timer_data>(timer_data{
            timer_t{ ioContext },
            std::move(handler),
            interval,
            type::SteadyTimePoint::Now(),
            periodic,
            false
        } ) }
    {
''','''        m_timerData{ nullptr }
    {
        timer_data timerData{
            timer_t{ ioContext },
            std::move(handler),
            interval,
            type::SteadyTimePoint::Now(),
            periodic,
            false
        };
        m_timerData = std::make_shared<timer_data>(std::move(timerData));

''')]),
]
